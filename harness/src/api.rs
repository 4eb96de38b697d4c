//! The library's entry points under one roof, for whichever feature set is built.

use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::Value;
use toon::Options;

#[derive(Debug, Clone)]
pub struct DecErr {
    /// Line number, for syntax errors.
    pub line: Option<usize>,
    pub msg: String,
}
impl std::fmt::Display for DecErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.msg)
    }
}

pub fn err(e: toon::Error) -> DecErr {
    let msg = e.to_string();
    match e {
        toon::Error::Syntax { line, .. } => DecErr { line: Some(line), msg },
        _ => DecErr { line: None, msg },
    }
}

pub fn decode(text: &str, o: &Options) -> Result<Value, DecErr> {
    crate::engine::library_call();
    toon::decode_from_str::<Value>(text, o).map_err(err)
}
pub fn decode_as<T: DeserializeOwned + 'static>(text: &str, o: &Options) -> Result<T, DecErr> {
    crate::engine::library_call();
    toon::decode_from_str::<T>(text, o).map_err(err)
}

/// The streaming entry point, present in every feature set.
pub fn encode<T: Serialize>(v: &T, o: &Options) -> Result<String, String> {
    crate::engine::library_call();
    toon::encode_to_string(v, o).map_err(|e| e.to_string())
}

/// The value-based entry point (the streaming one where there is no other).
#[cfg(not(feature = "set-alloc"))]
pub fn encode_buffered<T: Serialize>(v: &T, o: &Options) -> Result<String, String> {
    crate::engine::library_call();
    toon::ser::to_string(v, o).map_err(|e| e.to_string())
}
#[cfg(feature = "set-alloc")]
pub fn encode_buffered<T: Serialize>(v: &T, o: &Options) -> Result<String, String> {
    crate::engine::library_call();
    toon::ser::to_string_streaming(v, o).map_err(|e| e.to_string())
}

/// Every way to turn a serializable value into text.
pub fn encode_all<T: Serialize>(v: &T, o: &Options) -> Vec<(&'static str, Result<String, String>)> {
    crate::engine::library_call();
    let mut out = vec![("encode_to_string", encode(v, o)), ("ser::to_string_streaming", toon::ser::to_string_streaming(v, o).map_err(|e| e.to_string()))];
    #[cfg(not(feature = "set-alloc"))]
    {
        let text = |r: toon::Result<()>, b: Vec<u8>| r.map_err(|e| e.to_string()).and_then(|()| String::from_utf8(b).map_err(|e| e.to_string()));
        out.push(("ser::to_string", encode_buffered(v, o)));
        let mut b = Vec::new();
        let r = toon::encode_to_writer(&mut b, v, o);
        out.push(("encode_to_writer", text(r, b)));
        let mut b = Vec::new();
        let r = toon::ser::to_writer(&mut b, v, o);
        out.push(("ser::to_writer", text(r, b)));
        let mut b = Vec::new();
        let r = toon::ser::to_writer_streaming(&mut b, v, o);
        out.push(("ser::to_writer_streaming", text(r, b)));
    }
    out
}

/// Every way to turn a JSON value into text.
pub fn encode_all_value(v: &Value, o: &Options) -> Vec<(&'static str, Result<String, String>)> {
    crate::engine::library_call();
    #[allow(unused_mut)]
    let mut out = encode_all(v, o);
    #[cfg(not(feature = "set-alloc"))]
    {
        out.push(("encode::encode_value_to_string", toon::encode::encode_value_to_string(v, o).map_err(|e| e.to_string())));
        #[cfg(feature = "inner")]
        {
            let mut w = toon::encode::writer::LineWriter::new();
            let r = toon::encode::encoders::encode_value(v, &mut w, o, 0);
            out.push(("encode::encoders::encode_value", r.map_err(|e| e.to_string()).map(|()| w.into_string())));
        }
    }
    out
}

pub fn with(o: &Options, f: impl FnOnce(&mut Options)) -> Options {
    let mut o = o.clone();
    f(&mut o);
    o
}
