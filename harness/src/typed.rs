//! Typed values without fixed Rust types: a schema drawn at random, values of it that serialize
//! through the whole serde data model, and a deserializer for it that any serde format can drive.

use crate::engine::Src;
use crate::generate::{any_f64, any_i64, any_string};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fmt;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub struct Fields {
    pub names: &'static [&'static str],
    pub tys: Vec<Ty>,
    /// Absent optional fields are left out.
    pub skip: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Var {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(Fields),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    Int(Width),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    UnitStruct,
    Opt(Box<Ty>),
    Newtype(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Struct(Fields),
    Enum(&'static [&'static str], Vec<Var>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Width {
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
}
/// The widths schemas draw from: the library refuses 128-bit integers.
pub const WIDTHS: [Width; 8] = [Width::I8, Width::I16, Width::I32, Width::I64, Width::U8, Width::U16, Width::U32, Width::U64];
impl Width {
    /// The values that fit both the width and 64 bits.
    pub fn range(self) -> (i128, i128) {
        match self {
            Width::I8 => (i8::MIN as i128, i8::MAX as i128),
            Width::I16 => (i16::MIN as i128, i16::MAX as i128),
            Width::I32 => (i32::MIN as i128, i32::MAX as i128),
            Width::I64 => (i64::MIN as i128, i64::MAX as i128),
            Width::I128 => (i64::MIN as i128, u64::MAX as i128),
            Width::U8 => (0, u8::MAX as i128),
            Width::U16 => (0, u16::MAX as i128),
            Width::U32 => (0, u32::MAX as i128),
            Width::U64 | Width::U128 => (0, u64::MAX as i128),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Tv {
    Bool(bool),
    Int(Width, i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    UnitStruct,
    None,
    Some(Box<Tv>),
    Newtype(Box<Tv>),
    Seq(Vec<Tv>),
    Tuple(Vec<Tv>),
    TupleStruct(Vec<Tv>),
    Map(Vec<(Tv, Tv)>),
    Struct(&'static [&'static str], Vec<Tv>, bool),
    Variant(u32, &'static str, Box<VarTv>),
    /// A value whose serialization fails.
    Fails,
    /// A list, map or struct that gives these parts and then fails.
    FailsLate(u8, Vec<Tv>),
}
#[derive(Clone, Debug)]
pub enum VarTv {
    Unit,
    Newtype(Tv),
    Tuple(Vec<Tv>),
    Struct(&'static [&'static str], Vec<Tv>, bool),
}
impl PartialEq for VarTv {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (VarTv::Unit, VarTv::Unit) => true,
            (VarTv::Newtype(a), VarTv::Newtype(b)) => a == b,
            (VarTv::Tuple(a), VarTv::Tuple(b)) => a == b,
            (VarTv::Struct(n, a, _), VarTv::Struct(m, b, _)) => n == m && a == b,
            _ => false,
        }
    }
}
impl PartialEq for Tv {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Tv::Bool(a), Tv::Bool(b)) => a == b,
            (Tv::Int(w, a), Tv::Int(x, b)) => w == x && a == b,
            (Tv::F32(a), Tv::F32(b)) => a == b,
            (Tv::F64(a), Tv::F64(b)) => a == b,
            (Tv::Char(a), Tv::Char(b)) => a == b,
            (Tv::Str(a), Tv::Str(b)) => a == b,
            (Tv::Bytes(a), Tv::Bytes(b)) => a == b,
            (Tv::Unit, Tv::Unit) | (Tv::UnitStruct, Tv::UnitStruct) | (Tv::None, Tv::None) => true,
            (Tv::Some(a), Tv::Some(b)) | (Tv::Newtype(a), Tv::Newtype(b)) => a == b,
            (Tv::Seq(a), Tv::Seq(b)) | (Tv::Tuple(a), Tv::Tuple(b)) | (Tv::TupleStruct(a), Tv::TupleStruct(b)) => a == b,
            (Tv::Map(a), Tv::Map(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && v == w)),
            (Tv::Struct(n, a, _), Tv::Struct(m, b, _)) => n == m && a == b,
            (Tv::Variant(i, n, a), Tv::Variant(j, m, b)) => i == j && n == m && a == b,
            _ => false,
        }
    }
}

thread_local! {
    static SCHEMA: RefCell<Ty> = const { RefCell::new(Ty::Unit) };
    /// Sequences and maps do not tell their length in advance.
    static NO_LEN: Cell<bool> = const { Cell::new(false) };
    /// Map entries are given as separate keys and values.
    static SPLIT: Cell<bool> = const { Cell::new(false) };
    /// Strings are given piece by piece, as `Display` types do.
    static COLLECT: Cell<bool> = const { Cell::new(false) };
}
pub fn serialize_style(no_len: bool, split: bool, collect: bool) {
    NO_LEN.set(no_len);
    SPLIT.set(split);
    COLLECT.set(collect);
}

thread_local! {
    /// While set, the nodes serialized so far: none of them may be serialized again.
    static SEEN: RefCell<Option<HashSet<usize>>> = const { RefCell::new(None) };
}
/// Runs `f` with every value fit for a single serialization, as one that drains an iterator is.
pub fn single_use<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            SEEN.take();
        }
    }
    SEEN.set(Some(HashSet::new()));
    let _off = Off;
    f()
}
fn used_up(v: &Tv) -> bool {
    SEEN.with_borrow_mut(|s| s.as_mut().is_some_and(|s| !s.insert(v as *const Tv as usize)))
}

/// Displays its text in several writes.
struct Pieces<'a>(&'a str);
impl std::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        use std::fmt::Write;
        let cut = self.0.char_indices().nth(2).map_or(self.0.len(), |(i, _)| i);
        f.write_str(&self.0[..cut])?;
        for c in self.0[cut..].chars() {
            f.write_char(c)?;
        }
        Ok(())
    }
}

static INTERNED: Mutex<Option<HashMap<Vec<&'static str>, &'static [&'static str]>>> = Mutex::new(None);
fn intern(v: Vec<&'static str>) -> &'static [&'static str] {
    let mut g = INTERNED.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(&v) {
        return x;
    }
    let l: &'static [&'static str] = Box::leak(v.clone().into_boxed_slice());
    m.insert(v, l);
    l
}

const NAMES: &[&str] = &["a", "b", "c", "id", "name", "x1", "_p", "Key", "value", "a-b", "x y", "1", "", "日本", "a.b", "true", "null", "a:b", "[0]", "k,v", "t\tb", "a|b", "\"", "-", "type"];
const VARIANTS: &[&str] = &["A", "B", "C", "Unit", "New", "Tup", "Obj", "x-y", "null", "true", "1", "", "a.b", "日", "-5", "sp ace", "Some", "a:b"];

fn names(s: &mut Src, pool: &'static [&'static str], n: usize) -> &'static [&'static str] {
    // mostly from the plain front of the pool, in order, so that few sets are interned
    let odd = s.chance(1, 3);
    let mut v: Vec<&'static str> = Vec::new();
    let start = if odd { s.below(pool.len()) } else { s.below(3) };
    for i in 0..n {
        v.push(pool[(start + i) % pool.len()]);
    }
    let texts = &crate::words::words().texts;
    if !texts.is_empty() && n > 0 && s.chance(1, 8) {
        let t = s.pick(texts).as_str();
        if !v.contains(&t) {
            let at = s.below(n);
            v[at] = t;
        }
    }
    intern(v)
}

pub struct Gen {
    pub budget: usize,
    /// Include what a round trip cannot give back.
    pub any_float: bool,
}

fn fields(s: &mut Src, g: &mut Gen, depth: usize, prims: bool) -> Fields {
    let n = if s.chance(1, 50) { s.range(6, NAMES.len() - 1) } else { s.count(5) };
    let names = names(s, NAMES, n.min(NAMES.len() - 1));
    let tys = names.iter().map(|_| if prims { prim_ty(s) } else { ty_in(s, g, depth + 1) }).collect();
    Fields { names, tys, skip: s.chance(1, 3) }
}
fn prim_ty(s: &mut Src) -> Ty {
    match s.weighted(&[2, 4, 1, 2, 1, 4, 2]) {
        0 => Ty::Bool,
        1 => Ty::Int(*s.pick(&WIDTHS)),
        2 => Ty::F32,
        3 => Ty::F64,
        4 => Ty::Char,
        5 => Ty::Str,
        _ => Ty::Opt(Box::new(match s.below(4) {
            0 => Ty::Str,
            1 => Ty::Int(*s.pick(&WIDTHS)),
            2 => Ty::Bool,
            _ => Ty::F64,
        })),
    }
}
fn key_ty(s: &mut Src) -> Ty {
    match s.weighted(&[4, 4, 1, 2, 1, 1]) {
        0 => Ty::Str,
        1 => Ty::Int(*s.pick(&WIDTHS)),
        2 => Ty::Bool,
        3 => Ty::Char,
        4 => {
            let n = 1 + s.below(4);
            Ty::Enum(names(s, VARIANTS, n), vec![Var::Unit; n])
        }
        _ => Ty::Newtype(Box::new(Ty::Str)),
    }
}
/// Can a value of the type serialize to null?
fn nullable(t: &Ty) -> bool {
    match t {
        Ty::Unit | Ty::UnitStruct | Ty::Opt(_) => true,
        Ty::Newtype(t) => nullable(t),
        _ => false,
    }
}
fn ty_in(s: &mut Src, g: &mut Gen, depth: usize) -> Ty {
    if g.budget == 0 || depth > 5 {
        return prim_ty(s);
    }
    g.budget -= 1;
    match s.weighted(&[5, 5, 3, 2, 3, 3, 2, 2, 3, 3, 1, 1]) {
        0 => prim_ty(s),
        1 => Ty::Struct(fields(s, g, depth, false)),
        2 => Ty::Seq(Box::new(ty_in(s, g, depth + 1))),
        3 => Ty::Seq(Box::new(Ty::Struct(fields(s, g, depth, true)))),
        4 => {
            let t = ty_in(s, g, depth + 1);
            if nullable(&t) { t } else { Ty::Opt(Box::new(t)) }
        }
        5 => {
            let k = key_ty(s);
            Ty::Map(Box::new(k), Box::new(ty_in(s, g, depth + 1)))
        }
        6 => {
            if s.chance(1, 40) {
                let n = s.range(4, 24);
                return Ty::Tuple((0..n).map(|_| prim_ty(s)).collect());
            }
            let n = s.count(3);
            Ty::Tuple((0..n.max(1)).map(|_| ty_in(s, g, depth + 1)).collect())
        }
        7 => {
            let n = s.count(3);
            if s.chance(1, 2) { Ty::TupleStruct((0..n).map(|_| ty_in(s, g, depth + 1)).collect()) } else { Ty::Newtype(Box::new(ty_in(s, g, depth + 1))) }
        }
        8 | 9 => {
            let n = if s.chance(1, 50) { s.range(5, VARIANTS.len()) } else { (1 + s.count(3)).min(VARIANTS.len()) };
            let names = names(s, VARIANTS, n);
            let vars = (0..n)
                .map(|_| match s.weighted(&[3, 2, 2, 2]) {
                    0 => Var::Unit,
                    1 => Var::Newtype(ty_in(s, g, depth + 1)),
                    2 => Var::Tuple((0..s.count(3).max(1)).map(|_| ty_in(s, g, depth + 1)).collect()),
                    _ => Var::Struct(fields(s, g, depth, false)),
                })
                .collect();
            Ty::Enum(names, vars)
        }
        10 => s.pick(&[Ty::Unit, Ty::UnitStruct]).clone(),
        _ => Ty::Bytes,
    }
}
pub fn ty(s: &mut Src, g: &mut Gen) -> Ty {
    if s.size > 30 && s.chance(1, 60) {
        // one thing inside another, many times
        g.budget = g.budget.min(10);
        let mut t = ty_in(s, g, 3);
        for _ in 0..s.range(3, 40) {
            t = match s.below(5) {
                0 => Ty::Tuple(vec![t]),
                1 => Ty::Newtype(Box::new(t)),
                2 => Ty::Struct(Fields { names: names(s, NAMES, 1), tys: vec![t], skip: false }),
                3 => {
                    let first = s.chance(1, 2);
                    let p = prim_ty(s);
                    Ty::Struct(Fields { names: names(s, NAMES, 2), tys: if first { vec![t, p] } else { vec![p, t] }, skip: false })
                }
                _ => Ty::Enum(names(s, VARIANTS, 1), vec![Var::Newtype(t)]),
            };
        }
        return t;
    }
    ty_in(s, g, 0)
}

fn int(s: &mut Src, w: Width) -> i128 {
    let (lo, hi) = w.range();
    if let Some(n) = crate::words::number(s) {
        let n = n as i128;
        return (if s.chance(1, 4) { -n } else { n }).clamp(lo, hi);
    }
    match s.weighted(&[4, 2, 2, 2]) {
        0 => (s.below(40) as i128 - if lo < 0 { 20 } else { 0 }).clamp(lo, hi),
        1 => *s.pick(&[lo, hi, lo + 1, hi - 1]),
        2 => {
            let x = any_i64(s) as i128;
            x.clamp(lo, hi)
        }
        _ => lo + (s.u64() as i128) % (hi - lo + 1),
    }
}
fn float(s: &mut Src, g: &Gen) -> f64 {
    let f = any_f64(s);
    if g.any_float && s.chance(1, 10) {
        return *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]);
    }
    if !f.is_finite() || crate::refmodel::is_tie(f) { 0.5 } else { f }
}
pub fn value_of(s: &mut Src, g: &mut Gen, t: &Ty) -> Tv {
    match t {
        Ty::Bool => Tv::Bool(s.chance(1, 2)),
        Ty::Int(w) => Tv::Int(*w, int(s, *w)),
        Ty::F32 => {
            let f = float(s, g) as f32;
            Tv::F32(if (f.is_finite() && !crate::refmodel::is_tie(f as f64)) || g.any_float { f } else { 1.5 })
        }
        Ty::F64 => Tv::F64(float(s, g)),
        Ty::Char => Tv::Char(crate::generate::any_char(s)),
        Ty::Str => Tv::Str(any_string(s)),
        Ty::Bytes => Tv::Bytes((0..if s.chance(1, 40) { s.range(6, 300) } else { s.count(5) }).map(|_| s.below(256) as u8).collect()),
        Ty::Unit => Tv::Unit,
        Ty::UnitStruct => Tv::UnitStruct,
        Ty::Opt(t) => {
            if s.chance(1, 3) {
                Tv::None
            } else {
                Tv::Some(Box::new(value_of(s, g, t)))
            }
        }
        Ty::Newtype(t) => Tv::Newtype(Box::new(value_of(s, g, t))),
        Ty::Seq(t) if s.size > 30 && s.chance(1, 100) => {
            // a long one of few distinct values
            let n = if s.chance(1, 20) { s.range(90, 700) } else { s.range(8, 90) };
            g.budget /= 4;
            let xs: Vec<Tv> = (0..3).map(|_| value_of(s, g, t)).collect();
            Tv::Seq((0..n).map(|i| xs[i * i % 3].clone()).collect())
        }
        Ty::Seq(t) if s.size > 30 && s.chance(1, 100) => {
            // many different ones, each of them small
            let n = s.many(5, 40, 150);
            let before = std::mem::replace(&mut g.budget, 0);
            let xs = (0..n)
                .map(|_| {
                    g.budget = 2;
                    value_of(s, g, t)
                })
                .collect();
            g.budget = before / 4;
            Tv::Seq(xs)
        }
        Ty::Seq(t) => {
            let n = items(s, g);
            Tv::Seq((0..n).map(|_| value_of(s, g, t)).collect())
        }
        Ty::Tuple(ts) => Tv::Tuple(ts.iter().map(|t| value_of(s, g, t)).collect()),
        Ty::TupleStruct(ts) => Tv::TupleStruct(ts.iter().map(|t| value_of(s, g, t)).collect()),
        Ty::Map(k, t) => {
            let many = s.size > 30 && s.chance(1, 100);
            let n = if many { s.range(8, 60) } else { items(s, g) };
            let mut out: Vec<(Tv, Tv)> = Vec::new();
            if many {
                g.budget /= 4;
            }
            for i in 0..n {
                let key = value_of(s, g, k);
                let v = if many && i > 2 { out[i % out.len()].1.clone() } else { value_of(s, g, t) };
                if !out.iter().any(|(o, _)| *o == key) {
                    out.push((key, v));
                }
            }
            Tv::Map(out)
        }
        Ty::Struct(f) => Tv::Struct(f.names, f.tys.iter().map(|t| value_of(s, g, t)).collect(), f.skip),
        Ty::Enum(names, vars) => {
            let i = s.below(vars.len());
            let v = match &vars[i] {
                Var::Unit => VarTv::Unit,
                Var::Newtype(t) => VarTv::Newtype(value_of(s, g, t)),
                Var::Tuple(ts) => VarTv::Tuple(ts.iter().map(|t| value_of(s, g, t)).collect()),
                Var::Struct(f) => VarTv::Struct(f.names, f.tys.iter().map(|t| value_of(s, g, t)).collect(), f.skip),
            };
            Tv::Variant(i as u32, names[i], Box::new(v))
        }
    }
}
fn items(s: &mut Src, g: &mut Gen) -> usize {
    let n = s.count(4).min(g.budget + 1);
    g.budget = g.budget.saturating_sub(n);
    n
}

// ---- serialization ----

impl Serialize for Tv {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let len = |n: usize| if NO_LEN.get() { None } else { Some(n) };
        if used_up(self) {
            return Err(serde::ser::Error::custom("serialized a second time"));
        }
        match self {
            Tv::Bool(b) => s.serialize_bool(*b),
            Tv::Int(w, i) => match w {
                Width::I8 => s.serialize_i8(*i as i8),
                Width::I16 => s.serialize_i16(*i as i16),
                Width::I32 => s.serialize_i32(*i as i32),
                Width::I64 => s.serialize_i64(*i as i64),
                Width::I128 => s.serialize_i128(*i),
                Width::U8 => s.serialize_u8(*i as u8),
                Width::U16 => s.serialize_u16(*i as u16),
                Width::U32 => s.serialize_u32(*i as u32),
                Width::U64 => s.serialize_u64(*i as u64),
                Width::U128 => s.serialize_u128(*i as u128),
            },
            Tv::F32(f) => s.serialize_f32(*f),
            Tv::F64(f) => s.serialize_f64(*f),
            Tv::Char(c) => s.serialize_char(*c),
            // TOON is text: types with two representations give the readable one
            Tv::Str(_) if !s.is_human_readable() => s.serialize_none(),
            Tv::Str(x) if COLLECT.get() => s.collect_str(&Pieces(x)),
            Tv::Str(x) => s.serialize_str(x),
            Tv::Bytes(b) => s.serialize_bytes(b),
            Tv::Unit => s.serialize_unit(),
            Tv::UnitStruct => s.serialize_unit_struct("U"),
            Tv::None => s.serialize_none(),
            Tv::Some(x) => s.serialize_some(x),
            Tv::Newtype(x) => s.serialize_newtype_struct("N", x),
            Tv::Seq(a) => {
                let mut q = s.serialize_seq(len(a.len()))?;
                for x in a {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tv::Tuple(a) => {
                let mut q = s.serialize_tuple(a.len())?;
                for x in a {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tv::TupleStruct(a) => {
                let mut q = s.serialize_tuple_struct("T", a.len())?;
                for x in a {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Tv::Map(m) => {
                let mut q = s.serialize_map(len(m.len()))?;
                for (k, v) in m {
                    if SPLIT.get() {
                        q.serialize_key(k)?;
                        q.serialize_value(v)?;
                    } else {
                        q.serialize_entry(k, v)?;
                    }
                }
                q.end()
            }
            Tv::Struct(names, vs, skip) => {
                let left_out = |v: &Tv| *skip && matches!(v, Tv::None);
                let mut q = s.serialize_struct("S", vs.iter().filter(|v| !left_out(v)).count())?;
                for (n, v) in names.iter().zip(vs) {
                    if left_out(v) {
                        q.skip_field(n)?;
                    } else {
                        q.serialize_field(n, v)?;
                    }
                }
                q.end()
            }
            Tv::Variant(i, n, v) => match &**v {
                VarTv::Unit => s.serialize_unit_variant("E", *i, n),
                VarTv::Newtype(x) => s.serialize_newtype_variant("E", *i, n, x),
                VarTv::Tuple(a) => {
                    let mut q = s.serialize_tuple_variant("E", *i, n, a.len())?;
                    for x in a {
                        q.serialize_field(x)?;
                    }
                    q.end()
                }
                VarTv::Struct(names, vs, skip) => {
                    let left_out = |v: &Tv| *skip && matches!(v, Tv::None);
                    let mut q = s.serialize_struct_variant("E", *i, n, vs.iter().filter(|v| !left_out(v)).count())?;
                    for (n, v) in names.iter().zip(vs) {
                        if left_out(v) {
                            q.skip_field(n)?;
                        } else {
                            q.serialize_field(n, v)?;
                        }
                    }
                    q.end()
                }
            },
            Tv::Fails => Err(serde::ser::Error::custom("refused")),
            Tv::FailsLate(how, a) => {
                match how {
                    0 => {
                        let mut q = s.serialize_seq(len(a.len()))?;
                        for x in a {
                            q.serialize_element(x)?;
                        }
                    }
                    1 => {
                        let mut q = s.serialize_tuple(a.len())?;
                        for x in a {
                            q.serialize_element(x)?;
                        }
                    }
                    2 => {
                        let mut q = s.serialize_struct("S", a.len())?;
                        for (x, k) in a.iter().zip(["a", "b", "c", "d"]) {
                            q.serialize_field(k, x)?;
                        }
                    }
                    3 => {
                        // with a key and no value for it
                        let mut q = s.serialize_map(len(a.len()))?;
                        for (i, x) in a.iter().enumerate() {
                            q.serialize_entry(&format!("k{i}"), x)?;
                        }
                        q.serialize_key("last")?;
                    }
                    _ => {
                        let mut q = s.serialize_map(len(a.len()))?;
                        for (i, x) in a.iter().enumerate() {
                            q.serialize_entry(&format!("k{i}"), x)?;
                        }
                    }
                }
                Err(serde::ser::Error::custom("refused late"))
            }
        }
    }
}

// ---- deserialization ----

/// A value of the schema set for this thread.
#[derive(Debug, Clone, PartialEq)]
pub struct Dyn(pub Tv);
pub fn with_schema<T>(t: &Ty, f: impl FnOnce() -> T) -> T {
    SCHEMA.with(|s| *s.borrow_mut() = t.clone());
    f()
}
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = SCHEMA.with(|s| s.borrow().clone());
        Seed(&t).deserialize(d).map(Dyn)
    }
}

struct Seed<'t>(&'t Ty);
struct Vis<'t>(&'t Ty);

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Tv;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Tv, D::Error> {
        let v = Vis(self.0);
        match self.0 {
            Ty::Bool => d.deserialize_bool(v),
            Ty::Int(w) => {
                // the standard library's own range checks
                macro_rules! std_int {
                    ($t:ty) => {
                        <$t>::deserialize(d).map(|x| Tv::Int(*w, x as i128))
                    };
                }
                match w {
                    Width::I8 => std_int!(i8),
                    Width::I16 => std_int!(i16),
                    Width::I32 => std_int!(i32),
                    Width::I64 => std_int!(i64),
                    Width::I128 => std_int!(i128),
                    Width::U8 => std_int!(u8),
                    Width::U16 => std_int!(u16),
                    Width::U32 => std_int!(u32),
                    Width::U64 => std_int!(u64),
                    Width::U128 => std_int!(u128),
                }
            }
            Ty::F32 => f32::deserialize(d).map(Tv::F32),
            Ty::F64 => f64::deserialize(d).map(Tv::F64),
            Ty::Char => char::deserialize(d).map(Tv::Char),
            Ty::Str if !d.is_human_readable() => Err(de::Error::custom("not human-readable")),
            Ty::Str => String::deserialize(d).map(Tv::Str),
            Ty::Bytes => Vec::<u8>::deserialize(d).map(Tv::Bytes),
            Ty::Unit => <()>::deserialize(d).map(|()| Tv::Unit),
            Ty::UnitStruct => d.deserialize_unit_struct("U", v),
            Ty::Opt(_) => d.deserialize_option(v),
            Ty::Newtype(_) => d.deserialize_newtype_struct("N", v),
            Ty::Seq(_) => d.deserialize_seq(v),
            Ty::Tuple(t) => d.deserialize_tuple(t.len(), v),
            Ty::TupleStruct(t) => d.deserialize_tuple_struct("T", t.len(), v),
            Ty::Map(..) => d.deserialize_map(v),
            Ty::Struct(f) => d.deserialize_struct("S", f.names, v),
            Ty::Enum(names, _) => d.deserialize_enum("E", names, v),
        }
    }
}

fn take_fields<'de, A: MapAccess<'de>>(f: &Fields, mut a: A) -> Result<Vec<Tv>, A::Error> {
    let mut out: Vec<Option<Tv>> = vec![None; f.names.len()];
    while let Some(i) = a.next_key_seed(FieldSeed(f.names))? {
        match i {
            Some(i) => {
                if out[i].is_some() {
                    return Err(de::Error::duplicate_field(f.names[i]));
                }
                out[i] = Some(a.next_value_seed(Seed(&f.tys[i]))?);
            }
            None => {
                a.next_value::<IgnoredAny>()?;
            }
        }
    }
    out.into_iter()
        .enumerate()
        .map(|(i, v)| match v {
            Some(v) => Ok(v),
            None if matches!(f.tys[i], Ty::Opt(_)) => Ok(Tv::None),
            None => Err(de::Error::missing_field(f.names[i])),
        })
        .collect()
}
fn take_seq<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<Vec<Tv>, A::Error> {
    let mut out = Vec::new();
    for (i, t) in ts.iter().enumerate() {
        match a.next_element_seed(Seed(t))? {
            Some(x) => out.push(x),
            None => return Err(de::Error::invalid_length(i, &"more elements")),
        }
    }
    Ok(out)
}

struct FieldSeed(&'static [&'static str]);
impl<'de> DeserializeSeed<'de> for FieldSeed {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        struct V(&'static [&'static str]);
        impl Visitor<'_> for V {
            type Value = Option<usize>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a field name")
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<Self::Value, E> {
                Ok(self.0.iter().position(|n| *n == v))
            }
        }
        d.deserialize_identifier(V(self.0))
    }
}
struct VariantSeed(&'static [&'static str]);
impl<'de> DeserializeSeed<'de> for VariantSeed {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        struct V(&'static [&'static str]);
        impl Visitor<'_> for V {
            type Value = usize;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a variant name")
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> {
                self.0.iter().position(|n| *n == v).ok_or_else(|| de::Error::unknown_variant(v, self.0))
            }
        }
        d.deserialize_identifier(V(self.0))
    }
}
struct FieldsVis<'t>(&'t Fields);
impl<'de> Visitor<'de> for FieldsVis<'_> {
    type Value = Vec<Tv>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct variant")
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Vec<Tv>, A::Error> {
        take_fields(self.0, a)
    }
}
struct TupleVis<'t>(&'t [Ty]);
impl<'de> Visitor<'de> for TupleVis<'_> {
    type Value = Vec<Tv>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a tuple of {}", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Tv>, A::Error> {
        take_seq(self.0, a)
    }
}

impl<'de> Visitor<'de> for Vis<'_> {
    type Value = Tv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a value of type {:?}", self.0)
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Tv, E> {
        if matches!(self.0, Ty::Bool) { Ok(Tv::Bool(v)) } else { Err(E::invalid_type(de::Unexpected::Bool(v), &self)) }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Tv, E> {
        match self.0 {
            Ty::UnitStruct => Ok(Tv::UnitStruct),
            Ty::Opt(_) => Ok(Tv::None),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Tv, E> {
        if matches!(self.0, Ty::Opt(_)) { Ok(Tv::None) } else { Err(E::invalid_type(de::Unexpected::Option, &self)) }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Tv, D::Error> {
        match self.0 {
            Ty::Opt(t) => Seed(t).deserialize(d).map(|x| Tv::Some(Box::new(x))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Tv, D::Error> {
        match self.0 {
            Ty::Newtype(t) => Seed(t).deserialize(d).map(|x| Tv::Newtype(Box::new(x))),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tv, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut out = Vec::new();
                while let Some(x) = a.next_element_seed(Seed(t))? {
                    out.push(x);
                }
                Ok(Tv::Seq(out))
            }
            Ty::Tuple(ts) => take_seq(ts, a).map(Tv::Tuple),
            Ty::TupleStruct(ts) => take_seq(ts, a).map(Tv::TupleStruct),
            // as derived code does
            Ty::Newtype(t) => a.next_element_seed(Seed(t))?.map(|x| Tv::Newtype(Box::new(x))).ok_or_else(|| de::Error::invalid_length(0, &"one element")),
            Ty::Struct(f) => take_seq(&f.tys, a).map(|v| Tv::Struct(f.names, v, f.skip)),
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Tv, A::Error> {
        match self.0 {
            Ty::Map(k, t) => {
                let mut out = Vec::new();
                while let Some(key) = a.next_key_seed(Seed(k))? {
                    let v = a.next_value_seed(Seed(t))?;
                    out.push((key, v));
                }
                Ok(Tv::Map(out))
            }
            Ty::Struct(f) => take_fields(f, a).map(|v| Tv::Struct(f.names, v, f.skip)),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Tv, A::Error> {
        let Ty::Enum(names, vars) = self.0 else { return Err(de::Error::invalid_type(de::Unexpected::Enum, &self)) };
        let (i, va) = a.variant_seed(VariantSeed(names))?;
        let v = match &vars[i] {
            Var::Unit => {
                va.unit_variant()?;
                VarTv::Unit
            }
            Var::Newtype(t) => VarTv::Newtype(va.newtype_variant_seed(Seed(t))?),
            Var::Tuple(ts) => VarTv::Tuple(va.tuple_variant(ts.len(), TupleVis(ts))?),
            Var::Struct(f) => VarTv::Struct(f.names, va.struct_variant(f.names, FieldsVis(f))?, f.skip),
        };
        Ok(Tv::Variant(i as u32, names[i], Box::new(v)))
    }
}

/// A schema that differs from the given one in one place.
pub fn mutate_ty(s: &mut Src, g: &mut Gen, t: &Ty) -> Ty {
    let mut t = t.clone();
    let n = count_ty(&t);
    let at = s.below(n);
    let mut i = 0;
    mutate_at(s, g, &mut t, at, &mut i);
    t
}
fn children(t: &Ty) -> Vec<&Ty> {
    match t {
        Ty::Opt(t) | Ty::Newtype(t) | Ty::Seq(t) => vec![t],
        Ty::Map(k, v) => vec![k, v],
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => ts.iter().collect(),
        Ty::Struct(f) => f.tys.iter().collect(),
        Ty::Enum(_, vs) => vs
            .iter()
            .flat_map(|v| match v {
                Var::Unit => vec![],
                Var::Newtype(t) => vec![t],
                Var::Tuple(ts) => ts.iter().collect(),
                Var::Struct(f) => f.tys.iter().collect(),
            })
            .collect(),
        _ => vec![],
    }
}
pub fn count_ty(t: &Ty) -> usize {
    1 + children(t).into_iter().map(count_ty).sum::<usize>()
}
fn mutate_at(s: &mut Src, g: &mut Gen, t: &mut Ty, at: usize, i: &mut usize) {
    if *i == at {
        *i += 1;
        *t = other(s, g, t);
        return;
    }
    *i += 1;
    let mut each = |t: &mut Ty, i: &mut usize| mutate_at(s, g, t, at, i);
    match t {
        Ty::Opt(t) | Ty::Newtype(t) | Ty::Seq(t) => each(t, i),
        Ty::Map(k, v) => {
            each(k, i);
            each(v, i);
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => ts.iter_mut().for_each(|t| each(t, i)),
        Ty::Struct(f) => f.tys.iter_mut().for_each(|t| each(t, i)),
        Ty::Enum(_, vs) => {
            for v in vs {
                match v {
                    Var::Unit => {}
                    Var::Newtype(t) => each(t, i),
                    Var::Tuple(ts) => ts.iter_mut().for_each(|t| each(t, i)),
                    Var::Struct(f) => f.tys.iter_mut().for_each(|t| each(t, i)),
                }
            }
        }
        _ => {}
    }
}
fn other(s: &mut Src, g: &mut Gen, t: &Ty) -> Ty {
    g.budget = g.budget.max(3);
    match t {
        Ty::Int(_) if s.chance(2, 3) => Ty::Int(*s.pick(&WIDTHS)),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) if s.chance(2, 3) => {
            let mut ts = ts.clone();
            if s.chance(1, 2) && !ts.is_empty() {
                ts.pop();
            } else {
                ts.push(prim_ty(s));
            }
            if s.chance(1, 2) { Ty::Tuple(ts) } else { Ty::TupleStruct(ts) }
        }
        Ty::Struct(f) if s.chance(2, 3) => {
            let mut f = f.clone();
            if s.chance(1, 2) && !f.tys.is_empty() {
                let k = s.below(f.tys.len());
                f.tys.remove(k);
                let mut n = f.names.to_vec();
                n.remove(k);
                f.names = intern(n);
            } else {
                let n = NAMES.iter().find(|n| !f.names.contains(n)).unwrap_or(&"none of these");
                let mut ns = f.names.to_vec();
                ns.push(n);
                f.names = intern(ns);
                f.tys.push(prim_ty(s));
            }
            Ty::Struct(f)
        }
        Ty::Enum(n, vs) if s.chance(2, 3) => {
            let (mut n, mut vs) = (n.to_vec(), vs.clone());
            let k = s.below(vs.len());
            match s.below(3) {
                0 if vs.len() > 1 => {
                    vs.remove(k);
                    n.remove(k);
                }
                1 => vs[k] = Var::Unit,
                _ => vs[k] = Var::Newtype(prim_ty(s)),
            }
            Ty::Enum(intern(n), vs)
        }
        Ty::Opt(t) if s.chance(1, 2) => (**t).clone(),
        Ty::Seq(t) if s.chance(1, 3) => Ty::Map(Box::new(Ty::Str), t.clone()),
        Ty::Map(_, t) if s.chance(1, 2) => Ty::Map(Box::new(key_ty(s)), t.clone()),
        _ => ty_in(s, g, 3),
    }
}
