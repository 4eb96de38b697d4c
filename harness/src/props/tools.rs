//! C17 the command-line tool, C18 the WebAssembly bindings: each runs as a process of its own and is
//! compared with the library.

use super::enc::json_token;
use crate::doc;
use crate::engine::*;
use crate::generate::*;
use crate::refmodel::{denoted, same};
use crate::runner::Prop;
use crate::soup;
use serde_json::Value;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use toon::{Delimiter, Options};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "A case is an input (JSON or TOON, valid, mutated or arbitrary, or bytes that are not UTF-8) with a set of flags, given as a file, as standard input, or both; the tool is run as a process and its exit status, standard output and standard error are compared with what the library makes of the input. There-and-back: JSON through the tool and back. Non-trivial: the input holds a container or is rejected. Distinct by input and flags.",
            subs: vec![
                Sub { name: "convert", f: cli_convert, quick: 12_000, thorough: 400_000, max_size: 70 },
                Sub { name: "there-and-back", f: cli_back, quick: 4_000, thorough: 120_000, max_size: 80 },
                Sub { name: "unreadable", f: cli_unreadable, quick: 200, thorough: 5_000, max_size: 30 },
                Sub { name: "large", f: cli_large, quick: 40, thorough: 2_000, max_size: 100 },
            ],
            known: vec![],
        },
        Prop {
            id: "C18",
            rule: "A case is a string (JSON or TOON, valid, mutated or arbitrary) with flags; the binding function's result is compared with the library's. size-limit: texts whose length in bytes lies around 10 MiB, of one-byte and multi-byte characters. Non-trivial: the input holds a container or is rejected, or its size is near the limit. Distinct by input and flags.",
            subs: vec![
                Sub { name: "json-to-toon", f: wasm_json, quick: 200_000, thorough: 5_000_000, max_size: 80 },
                Sub { name: "toon-to-json", f: wasm_toon, quick: 300_000, thorough: 8_000_000, max_size: 70 },
                Sub { name: "size-limit", f: wasm_size, quick: 25, thorough: 400, max_size: 10 },
            ],
            known: vec![],
        },
    ]
}

/// A JSON text of the value in a random layout.
fn json_layout(s: &mut Src, v: &Value, out: &mut String) {
    fn ws(s: &mut Src, out: &mut String) {
        if s.chance(1, 8) {
            out.push_str(s.pick::<&str>(&[" ", "\n", "\t", "\r\n", "  "]));
        }
    }
    fn string(s: &mut Src, x: &str, out: &mut String) {
        out.push('"');
        for ch in x.chars() {
            match ch {
                '"' => out.push_str("\\\""),
                '\\' => out.push_str("\\\\"),
                '/' if s.chance(1, 2) => out.push_str("\\/"),
                c if (c as u32) < 0x20 || s.chance(1, 12) => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        out.push_str(&format!("\\u{u:04x}"));
                    }
                }
                c => out.push(c),
            }
        }
        out.push('"');
    }
    ws(s, out);
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                json_layout(s, x, out);
            }
            ws(s, out);
            out.push(']');
        }
        Value::Object(m) => {
            out.push('{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(s, out);
                string(s, k, out);
                ws(s, out);
                out.push(':');
                json_layout(s, x, out);
            }
            ws(s, out);
            out.push('}');
        }
        Value::String(x) => string(s, x, out),
        Value::Number(_) if s.chance(1, 6) => out.push_str(&json_token(s)),
        x => out.push_str(&x.to_string()),
    }
    ws(s, out);
}
fn any_value(s: &mut Src) -> Value {
    match s.below(3) {
        0 => value(s, cfg(s)),
        1 => super::enc::shape(s),
        _ => near_table(s, cfg(s)),
    }
}
fn json_text(s: &mut Src) -> String {
    let v = any_value(s);
    let mut t = String::new();
    json_layout(s, &v, &mut t);
    if s.chance(1, 30) {
        let n = *s.pick(&[50usize, 120, 127, 128, 129, 400]);
        t = format!("{}{t}{}", "[".repeat(n), "]".repeat(n));
    }
    if s.chance(1, 5) {
        // one edit
        let cuts: Vec<usize> = t.char_indices().map(|(i, _)| i).chain([t.len()]).collect();
        let at = *s.pick(&cuts);
        match s.below(4) {
            0 => t.truncate(at),
            1 => t.insert_str(at, s.pick::<&str>(&["\"", "{", "}", "[", "]", ",", ":", "0", "e", "x", "\u{0}", "\u{feff}", " ", "null", "-"])),
            2 => {
                t = t[at..].to_string();
            }
            _ => {
                if at < t.len() {
                    t.remove(at);
                }
            }
        }
    }
    edges(s, t)
}
fn toon_text(s: &mut Src, c: &mut Case) -> String {
    let t = if s.chance(1, 2) {
        let v = any_value(s);
        let st = doc::style(s);
        let dd = *s.pick(&doc::delims());
        let d = doc::layout(s, &v, st, dd, 2);
        d.spaced(s, 10)
    } else {
        soup::text(s, c).0
    };
    edges(s, t)
}

fn json_of(v: &Value, pretty: bool) -> Result<String, String> {
    if pretty { serde_json::to_string_pretty(v) } else { serde_json::to_string(v) }.map_err(|e| e.to_string())
}
/// The library's conversion.
fn convert(t: &str, decode: bool, pretty: bool, o: &Options) -> Result<String, String> {
    if decode {
        let v = toon::decode_from_str::<Value>(t, o).map_err(|e| e.to_string())?;
        json_of(&v, pretty)
    } else {
        let v: Value = serde_json::from_str(t).map_err(|e| e.to_string())?;
        toon::encode_to_string(&v, o).map_err(|e| e.to_string())
    }
}

// ---- C17

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
}
fn cli() -> String {
    std::env::var("TOON_CLI").expect("TOON_CLI")
}
fn run_cli(args: &[String], input: Option<&[u8]>) -> Result<Ran, String> {
    library_call();
    let mut ch = Command::new(cli())
        .args(args)
        .stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .env_clear()
        .spawn()
        .map_err(|e| format!("harness: cannot start the tool: {e}"))?;
    let to = ch.stdin.take();
    let r = std::thread::scope(|sc| {
        if let (Some(mut to), Some(b)) = (to, input) {
            if b.len() < 32_768 {
                let _ = to.write_all(b);
            } else {
                sc.spawn(move || {
                    let _ = to.write_all(b);
                });
            }
        }
        ch.wait_with_output()
    })
    .map_err(|e| format!("harness: {e}"))?;
    Ok(Ran { code: r.status.code(), out: r.stdout, err: r.stderr })
}
struct Scratch(PathBuf);
impl Scratch {
    fn new(b: &[u8]) -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let d = PathBuf::from(root).join("target").join("tmp");
        let _ = std::fs::create_dir_all(&d);
        let f = d.join(format!("cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::write(&f, b).expect("scratch file");
        Scratch(f)
    }
    fn arg(&self) -> String {
        self.0.to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

struct Flags {
    args: Vec<String>,
    decode: bool,
    pretty: bool,
    o: Options,
}
fn flags(s: &mut Src, decode: bool) -> Flags {
    let mut args: Vec<Vec<String>> = Vec::new();
    if decode {
        args.push(vec![s.pick::<&str>(&["-d", "--decode"]).to_string()]);
    }
    let pretty = s.chance(1, 3);
    if pretty {
        args.push(vec!["--pretty".into()]);
    }
    if s.chance(1, 3) {
        args.push(vec!["--strict".into()]);
    }
    let mut o = Options::default();
    if s.chance(2, 3) {
        let (n, d) = *s.pick(&[("comma", Delimiter::Comma), ("tab", Delimiter::Tab), ("pipe", Delimiter::Pipe)]);
        o.delimiter = d;
        args.push(if s.chance(1, 2) { vec!["--delimiter".into(), n.into()] } else { vec![format!("--delimiter={n}")] });
    }
    // any order
    let mut out = Vec::new();
    while !args.is_empty() {
        let i = s.below(args.len());
        out.extend(args.remove(i));
    }
    Flags { args: out, decode, pretty, o }
}
fn judge(what: &str, r: &Ran, want: &Result<String, String>) -> Result<(), String> {
    let lossy = |b: &[u8]| clip(&String::from_utf8_lossy(b), 1500);
    match want {
        Ok(w) => {
            if r.code != Some(0) {
                return Err(format!("({what}) the library converts the input, the tool exits with {:?}: {}", r.code, lossy(&r.err)));
            }
            if r.out != format!("{w}\n").as_bytes() {
                return Err(format!("({what}) the tool's output is not the library's and a newline\nlibrary: {w:?}\ntool:    {:?}", lossy(&r.out)));
            }
        }
        Err(e) => {
            if r.code == Some(0) || r.code.is_none() {
                return Err(format!("({what}) the input is rejected by the library ({e}), the tool exits with {:?} and prints {:?}", r.code, lossy(&r.out)));
            }
            if !r.out.is_empty() {
                return Err(format!("({what}) an error, and yet standard output: {:?}", lossy(&r.out)));
            }
            if r.err.is_empty() {
                return Err(format!("({what}) fails without a message"));
            }
        }
    }
    Ok(())
}
fn both_ways(s: &mut Src, c: &mut Case, f: &Flags, bytes: &[u8], want: &Result<String, String>) -> Result<(), String> {
    let way = s.below(3);
    if way != 1 {
        c.label("stdin");
        c.checks += 1;
        judge("stdin", &run_cli(&f.args, Some(bytes))?, want)?;
    }
    if way != 0 {
        c.label("file");
        c.checks += 1;
        let file = Scratch::new(bytes);
        let mut a = f.args.clone();
        let at = if s.chance(1, 3) { 0 } else { a.len() };
        a.insert(at, file.arg());
        // standard input is not read then
        let other: &[u8] = b"{\"not\": \"this\"}";
        judge("file", &run_cli(&a, s.chance(1, 2).then_some(other))?, want)?;
    }
    Ok(())
}
fn cli_convert(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let decode = s.chance(1, 2);
    let f = flags(s, decode);
    let t = if s.chance(1, 20) {
        String::new()
    } else if decode != s.chance(1, 15) {
        toon_text(s, c)
    } else {
        json_text(s)
    };
    let mut bytes = t.clone().into_bytes();
    if s.chance(1, 10) && !bytes.is_empty() {
        let i = s.below(bytes.len());
        bytes[i] = *s.pick(&[0x80u8, 0xff, 0xc3, 0xe2, 0x00]);
    }
    c.repr = format!("{:?} {:?}", f.args, String::from_utf8_lossy(&bytes));
    let want = match std::str::from_utf8(&bytes) {
        Ok(t) => convert(t, f.decode, f.pretty, &f.o),
        Err(e) => Err(format!("not UTF-8: {e}")),
    };
    c.label(if want.is_ok() { "accepted" } else { "rejected" });
    c.nontrivial = want.is_err() || t.contains(['\n', '[', '{']);
    both_ways(s, c, &f, &bytes, &want)
}
fn cli_back(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let v = any_value(s);
    let f = flags(s, false);
    let b = flags(s, true);
    let mut t = String::new();
    json_layout(s, &v, &mut t);
    c.repr = format!("{:?} {:?} {t:?}", f.args, b.args);
    c.nontrivial = v.is_array() || v.is_object();
    let Ok(v) = serde_json::from_str::<Value>(&t) else {
        c.label("rejected");
        return judge("rejected by serde_json", &run_cli(&f.args, Some(t.as_bytes()))?, &Err("not JSON".into()));
    };
    // serde_json itself reads some long numbers imprecisely
    let want = denoted(&v);
    if serde_json::from_str::<Value>(&want.to_string()).ok().as_ref() != Some(&want) {
        c.label("imprecise-in-serde_json");
        return Ok(());
    }
    let r = run_cli(&f.args, Some(t.as_bytes()))?;
    if r.code != Some(0) {
        return Err(format!("encoding fails: {}", String::from_utf8_lossy(&r.err)));
    }
    let r2 = run_cli(&b.args, Some(&r.out))?;
    if r2.code != Some(0) {
        return Err(format!("the tool does not read its own output: {}\n{}", String::from_utf8_lossy(&r2.err), String::from_utf8_lossy(&r.out)));
    }
    let got: Value = serde_json::from_slice(&r2.out).map_err(|e| format!("the output is not JSON: {e}\n{}", String::from_utf8_lossy(&r2.out)))?;
    same(&want, &got).map_err(|e| format!("{e}\n{}", String::from_utf8_lossy(&r.out)))
}
fn cli_unreadable(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let decode = s.chance(1, 2);
    let f = flags(s, decode);
    let file = Scratch::new(b"a: 1");
    let path = match s.below(3) {
        0 => format!("{}-missing", file.arg()),
        1 => file.0.parent().unwrap().to_str().unwrap().to_string(),
        _ => format!("{}/below", file.arg()),
    };
    let mut a = f.args.clone();
    a.push(path);
    c.repr = format!("{:?} {}", f.args, s.taken.last().unwrap_or(&0));
    c.nontrivial = true;
    judge("unreadable file", &run_cli(&a, Some(if decode { b"a: 1" } else { b"{\"a\":1}" }))?, &Err("unreadable".into()))
}
fn cli_large(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let decode = s.chance(1, 2);
    let f = flags(s, decode);
    let n = 500 + s.below(20_000);
    let unit = super::enc::tame_prim(s);
    let item = match s.below(3) {
        0 => unit.clone(),
        1 => serde_json::json!({"id": unit, "x": "日本 é"}),
        _ => serde_json::json!([unit, {"a": [1, 2]}]),
    };
    let v = Value::Array(vec![item.clone(); n]);
    let t = if decode { toon::encode_to_string(&v, &f.o).map_err(|e| e.to_string())? } else { v.to_string() };
    c.repr = format!("{:?} {n} x {item}", f.args);
    c.nontrivial = true;
    let want = convert(&t, f.decode, f.pretty, &f.o);
    both_ways(s, c, &f, t.as_bytes(), &want)
}

// ---- C18

struct Server {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
    calls: usize,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}
/// One call of a binding function.
fn call(op: u8, a: bool, b: bool, text: &str) -> Result<Result<String, String>, String> {
    library_call();
    SERVER.with(|p| {
        let mut p = p.borrow_mut();
        // its allocator never gives memory back
        if p.as_ref().is_some_and(|q| q.calls > 4_000) {
            *p = None;
        }
        if p.is_none() {
            let exe = std::env::var("VERIF_WASM").expect("VERIF_WASM");
            let mut child = Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("wasm server");
            let (to, from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
            *p = Some(Server { child, to, from, calls: 0 });
        }
        let q = p.as_mut().unwrap();
        q.calls += 1;
        let mut head = vec![op, a as u8, b as u8];
        head.extend((text.len() as u32).to_le_bytes());
        if text.len() < 60_000 {
            head.extend(text.as_bytes());
        }
        let mut h = [0u8; 5];
        let r = q.to.write_all(&head).and_then(|()| if text.len() >= 60_000 { q.to.write_all(text.as_bytes()) } else { Ok(()) }).and_then(|()| q.to.flush()).and_then(|()| q.from.read_exact(&mut h));
        let mut out = vec![0u8; u32::from_le_bytes(h[1..].try_into().unwrap()) as usize];
        if r.and_then(|()| q.from.read_exact(&mut out)).is_err() {
            *p = None;
            return Err("the process died in the binding function".into());
        }
        let out = String::from_utf8(out).map_err(|e| e.to_string())?;
        match h[0] {
            0 => Ok(Ok(out)),
            1 => Ok(Err(out)),
            _ => Err("the binding function panics".into()),
        }
    })
}
fn agree(want: Result<String, String>, got: Result<String, String>) -> Result<(), String> {
    match (want, got) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Ok(a), Ok(b)) => Err(format!("not the library's conversion\nlibrary: {:?}\nbinding: {:?}", clip(&a, 2000), clip(&b, 2000))),
        (Err(_), Err(b)) if !b.is_empty() => Ok(()),
        (Err(_), Err(_)) => Err("the error string is empty".into()),
        (Ok(_), Err(b)) => Err(format!("the library converts the text, the binding refuses it: {b}")),
        (Err(a), Ok(b)) => Err(format!("the library rejects the text ({a}), the binding gives {:?}", clip(&b, 2000))),
    }
}
fn wasm_json(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (pipe, strict) = (s.chance(1, 2), s.chance(1, 2));
    let t = if s.chance(1, 15) { toon_text(s, c) } else { json_text(s) };
    c.repr = format!("pipe={pipe} strict={strict} {t:?}");
    let o = Options { delimiter: if pipe { Delimiter::Pipe } else { Delimiter::Comma }, strict, ..Default::default() };
    let want = convert(&t, false, false, &o);
    c.label(if want.is_ok() { "accepted" } else { "rejected" });
    c.nontrivial = want.is_err() || t.contains(['[', '{']);
    agree(want, call(b'j', pipe, strict, &t)?)
}
fn wasm_toon(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (strict, pretty) = (s.chance(1, 2), s.chance(1, 2));
    let t = if s.chance(1, 15) { json_text(s) } else { toon_text(s, c) };
    c.repr = format!("strict={strict} pretty={pretty} {t:?}");
    let o = Options { strict, ..Default::default() };
    let want = convert(&t, true, pretty, &o);
    c.label(if want.is_ok() { "accepted" } else { "rejected" });
    c.nontrivial = want.is_err() || t.contains(['\n', '[', ':']);
    agree(want, call(b't', strict, pretty, &t)?)
}
const LIMIT: usize = 10 * 1024 * 1024;
fn wasm_size(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let to_toon = s.chance(1, 2);
    let (a, b) = (s.chance(1, 2), s.chance(1, 2));
    let over = *s.pick(&[0isize, 1, -1, 2, 3, 1000, -1000, LIMIT as isize]);
    let size = (LIMIT as isize + over) as usize;
    let ch = *s.pick(&['x', 'é', '日', '😀']);
    // spaces after a JSON text, a long string, or a comment-free document of many lines
    let (open, close) = if to_toon { ("\"", "\"") } else { ("k: \"", "\"") };
    let mut t = String::with_capacity(size + 8);
    t.push_str(open);
    let room = size - open.len() - close.len();
    let n = room / ch.len_utf8();
    for _ in 0..n {
        t.push(ch);
    }
    for _ in n * ch.len_utf8()..room {
        t.push('y');
    }
    t.push_str(close);
    c.repr = format!("to_toon={to_toon} {a} {b} {} bytes ({over:+} from the limit) of {ch:?}", t.len());
    c.nontrivial = true;
    assert_eq!(t.len(), size);
    let got = call(if to_toon { b'j' } else { b't' }, a, b, &t)?;
    if over > 0 {
        return match got {
            Err(e) if !e.is_empty() => Ok(()),
            Err(_) => Err("the error string is empty".into()),
            Ok(_) => Err(format!("a text of {size} bytes is not refused")),
        };
    }
    let want = if to_toon {
        convert(&t, false, false, &Options { delimiter: if a { Delimiter::Pipe } else { Delimiter::Comma }, strict: b, ..Default::default() })
    } else {
        convert(&t, true, b, &Options { strict: a, ..Default::default() })
    };
    agree(want, got)
}
