//! C19: readers and writers with chunking, interruptions and faults.

use crate::api;
use crate::engine::*;
use crate::generate::*;
use crate::runner::Prop;
use crate::soup;
use serde_json::Value;
use std::io::{self, ErrorKind, Read, Write};
use toon::{Error, ExpandPaths, Options};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        rule: "A case is a text read through a reader with a random chunk plan, interruptions and possibly a fault or invalid bytes; or a value written through a writer with a random short-write plan and possibly a fault. Non-trivial: more than one chunk, or a fault that was reached. Distinct by text or value, plan and options.",
        subs: vec![
            Sub { name: "reader", f: reader, quick: 400_000, thorough: 10_000_000, max_size: 70 },
            Sub { name: "reader-large", f: reader_large, quick: 3_000, thorough: 100_000, max_size: 70 },
            Sub { name: "reader-fault", f: reader_fault, quick: 300_000, thorough: 8_000_000, max_size: 70 },
            Sub { name: "invalid-utf8", f: invalid_utf8, quick: 300_000, thorough: 8_000_000, max_size: 70 },
            Sub { name: "writer", f: writer, quick: 150_000, thorough: 4_000_000, max_size: 70 },
            Sub { name: "writer-large", f: writer_large, quick: 1_500, thorough: 50_000, max_size: 70 },
        ],
        known: vec![],
    }]
}

/// How a stream hands out or takes its bytes.
#[derive(Clone, Debug)]
struct Plan {
    /// Chunk sizes, used cyclically.
    chunks: Vec<usize>,
    /// Before these chunks (cyclically) an interruption comes first.
    interrupts: Vec<bool>,
    /// Fail when this many bytes have passed.
    fault: Option<(usize, ErrorKind)>,
}
const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::NotFound,
    ErrorKind::OutOfMemory,
    ErrorKind::WriteZero,
];
fn plan(s: &mut Src, len: usize, large: bool) -> Plan {
    let n = 1 + s.below(4);
    let chunks = (0..n)
        .map(|_| match s.weighted(&[3, 3, 2, 1]) {
            _ if crate::words::words().sizes.first().is_some() && s.chance(1, 3) => crate::words::size(s, 1, 70_000, 1, 1).unwrap_or(1),
            0 => 1 + if large { s.below(5000) } else { s.below(3) },
            1 => 1 + if large { 4090 + s.below(12) } else { s.below(20) },
            2 => 1 + if large { 8185 + s.below(12) } else { s.below(200) },
            _ => 1 << 20,
        })
        .collect();
    let m = 1 + s.below(4);
    let interrupts = (0..m).map(|_| s.chance(1, 4)).collect();
    let _ = len;
    Plan { chunks, interrupts, fault: None }
}
struct Stream<'a> {
    plan: &'a Plan,
    data: &'a [u8],
    pos: usize,
    step: usize,
    interrupted: bool,
    faulted: bool,
    taken: Vec<u8>,
}
impl<'a> Stream<'a> {
    fn new(plan: &'a Plan, data: &'a [u8]) -> Self {
        Stream { plan, data, pos: 0, step: 0, interrupted: false, faulted: false, taken: Vec::new() }
    }
    /// The size of the next transfer, or the error to give instead.
    fn next(&mut self, avail: usize) -> io::Result<usize> {
        if let Some((at, k)) = self.plan.fault {
            if self.pos >= at {
                self.faulted = true;
                return Err(io::Error::new(k, "injected"));
            }
        }
        if self.plan.interrupts[self.step % self.plan.interrupts.len()] && !self.interrupted {
            self.interrupted = true;
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        self.interrupted = false;
        let mut n = self.plan.chunks[self.step % self.plan.chunks.len()].min(avail);
        if let Some((at, _)) = self.plan.fault {
            n = n.min(at - self.pos);
        }
        self.step += 1;
        self.pos += n;
        Ok(n)
    }
}
impl Read for Stream<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let at = self.pos;
        if at >= self.data.len() && self.plan.fault.is_none_or(|(f, _)| f > at) {
            return Ok(0);
        }
        let n = self.next(buf.len().min(self.data.len() - at))?;
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        Ok(n)
    }
}
impl Write for Stream<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.next(buf.len())?;
        self.taken.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn show(r: &Result<Value, Error>) -> String {
    match r {
        Ok(v) => format!("value {v}"),
        Err(e) => format!("error {e:?}"),
    }
}

fn dec_options(s: &mut Src, mut o: Options) -> Options {
    o.strict = !s.chance(1, 3);
    if s.chance(1, 4) {
        o.expand_paths = ExpandPaths::Safe;
    }
    o
}

fn check_reader(s: &mut Src, c: &mut Case, t: &str, o: &Options, p: &Plan) -> Result<(), String> {
    library_call();
    let want = toon::decode_from_str::<Value>(t, o);
    let mut st = Stream::new(p, t.as_bytes());
    let got = toon::decode_from_reader::<_, Value>(&mut st, o);
    c.nontrivial = st.step > 1;
    c.label(if want.is_ok() { "accepted" } else { "rejected" });
    if show(&want) != show(&got) {
        return Err(format!("reading in chunks gives another result\nwhole: {}\nchunks: {}\n{p:?}\n{}", show(&want), show(&got), clip(t, 500)));
    }
    // into a typed target, by value and through other readers
    if s.chance(1, 3) {
        c.checks += 1;
        let a = toon::decode_from_str::<std::collections::BTreeMap<String, serde_json::Value>>(t, o);
        let b = toon::decode_from_reader::<_, std::collections::BTreeMap<String, serde_json::Value>>(Stream::new(p, t.as_bytes()), o);
        if format!("{a:?}") != format!("{b:?}") {
            return Err(format!("reading in chunks into a map gives another result\nwhole: {a:?}\nchunks: {b:?}\n{p:?}\n{t}"));
        }
        let d = toon::decode_from_reader::<_, Value>(io::BufReader::with_capacity(1 + s.below(7), Stream::new(p, t.as_bytes())), o);
        if show(&want) != show(&d) {
            return Err(format!("reading through a buffered reader gives another result\nwhole: {}\nbuffered: {}\n{p:?}\n{t}", show(&want), show(&d)));
        }
    }
    Ok(())
}
fn reader(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, o) = soup::text(s, c);
    let o = dec_options(s, o);
    let p = plan(s, t.len(), false);
    c.repr = format!("{} {:?} {:?} {:?}", opts_text(&o), p.chunks, p.interrupts, t);
    check_reader(s, c, &t, &o, &p)
}
fn large_text(s: &mut Src) -> String {
    let mut t = String::new();
    let unit: &str = s.pick::<&str>(&["é", "日", "😀", "a", "aé日😀"]);
    // now and then several megabytes
    let huge = s.chance(1, 150);
    let total = if huge { 1_000_000 + s.below(12_000_000) } else { 3000 + s.below(4) * 20_000 + s.below(6000) };
    let mut i = 0;
    while t.len() < total {
        let n = 1 + s.below(3) * if huge { 90_000 } else { 700 };
        t.push_str(&format!("k{i}: \"{}{}\"\n", "x".repeat(s.below(5)), unit.repeat(n)));
        i += 1;
    }
    match s.weighted(&[4, 1, 1]) {
        0 => {}
        1 => t.push_str("last: \"open"),
        _ => t.push_str("  deep: 1"),
    }
    t
}
fn reader_large(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let t = large_text(s);
    let o = dec_options(s, Options::default());
    let p = plan(s, t.len(), true);
    c.repr = format!("{} {:?} {:?} {} bytes {:x}", opts_text(&o), p.chunks, p.interrupts, t.len(), hash_str(&t));
    check_reader(s, c, &t, &o, &p)
}

fn is_io<T>(r: &Result<T, Error>, k: Option<ErrorKind>) -> bool {
    matches!(r, Err(Error::Io(e)) if k.is_none_or(|k| e.kind() == k))
}
fn reader_fault(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, o) = soup::text(s, c);
    let o = dec_options(s, o);
    let mut p = plan(s, t.len(), false);
    // anywhere, the very end (after the last byte) included
    let at = if s.chance(1, 5) { t.len() } else { s.below(t.len() + 1) };
    let k = *s.pick(KINDS);
    p.fault = Some((at, k));
    c.repr = format!("{} {p:?} {:?}", opts_text(&o), t);
    library_call();
    let mut st = Stream::new(&p, t.as_bytes());
    let r = toon::decode_from_reader::<_, Value>(&mut st, &o);
    c.nontrivial = st.faulted;
    if !is_io(&r, Some(k)) {
        return Err(format!("the reader fails with {k:?} after {at} of {} bytes, decoding gives {}\n{t}", t.len(), show(&r)));
    }
    c.checks += 1;
    let r = toon::decode_from_reader::<_, std::collections::BTreeMap<String, f64>>(Stream::new(&p, t.as_bytes()), &o);
    if !is_io(&r, Some(k)) {
        return Err(format!("the reader fails with {k:?} after {at} of {} bytes, decoding into a map gives {r:?}\n{t}", t.len()));
    }
    Ok(())
}
fn invalid_utf8(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, o) = soup::text(s, c);
    let o = dec_options(s, o);
    let mut b = t.clone().into_bytes();
    let at = match s.below(8) {
        0 | 1 => b.len(),
        2 | 3 => 0,
        _ => s.below(b.len() + 1),
    };
    match s.weighted(&[12, 1, 1]) {
        0 => {
            let bad: &[u8] = s.pick::<&[u8]>(&[b"\xff", b"\xc3", b"\xc0\xaf", b"\xe6\x97", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80", b"\xc3\x28", b"\xfe", b"\xff\xfe", b"\xfe\xff", b"\xff\xfe\0\0", b"\xef\xbb", b"\xc0\x80"]);
            b.splice(at..at, bad.iter().copied());
        }
        1 => {
            // another encoding of it
            let big = s.chance(1, 2);
            let mark = s.chance(3, 4).then_some(0xfeffu16);
            let two = |u: u16| if big { u.to_be_bytes() } else { u.to_le_bytes() };
            b = mark.into_iter().chain(t.encode_utf16()).flat_map(two).collect();
        }
        _ => b = t.chars().chain(['é']).map(|c| u8::try_from(c as u32).unwrap_or(0xe4)).collect(),
    }
    if std::str::from_utf8(&b).is_ok() {
        return Ok(());
    }
    let p = plan(s, b.len(), false);
    c.repr = format!("{} {:?} {:?}", opts_text(&o), p.chunks, b);
    c.nontrivial = true;
    library_call();
    let r = toon::decode_from_reader::<_, Value>(Stream::new(&p, &b), &o);
    if !is_io(&r, None) {
        return Err(format!("invalid UTF-8: decoding gives {}\n{b:?}", show(&r)));
    }
    Ok(())
}

fn check_writer(s: &mut Src, c: &mut Case, v: &Value, o: &Options, p: &mut Plan) -> Result<(), String> {
    let want = api::encode(v, o)?;
    type W = fn(&mut Stream, &Value, &Options) -> Result<(), Error>;
    let fns: [(&str, W); 3] = [
        ("encode_to_writer", |w, v, o| toon::encode_to_writer(w, v, o)),
        ("ser::to_writer", |w, v, o| toon::ser::to_writer(w, v, o)),
        ("ser::to_writer_streaming", |w, v, o| toon::ser::to_writer_streaming(w, v, o)),
    ];
    for (name, f) in fns {
        c.checks += 1;
        let mut st = Stream::new(p, &[]);
        f(&mut st, v, o).map_err(|e| format!("{name} to a sound writer fails: {e:?}"))?;
        c.nontrivial |= st.step > 1;
        if st.taken != want.as_bytes() {
            return Err(format!("{name} delivers other bytes\nwant {:?}\ngot  {:?}\n{p:?}", clip(&want, 500), clip(&String::from_utf8_lossy(&st.taken), 500)));
        }
    }
    if want.is_empty() {
        return Ok(());
    }
    let at = match s.weighted(&[4, 1, 1]) {
        0 => s.below(want.len()),
        1 => want.len() - 1,
        _ => 0,
    };
    let k = *s.pick(KINDS);
    let mut fp = p.clone();
    fp.fault = Some((at, k));
    for (name, f) in fns {
        c.checks += 1;
        let mut st = Stream::new(&fp, &[]);
        let r = f(&mut st, v, o);
        if !is_io(&r, Some(k)) {
            return Err(format!("the writer fails with {k:?} after {at} of {} bytes, {name} gives {r:?}", want.len()));
        }
        if !want.as_bytes().starts_with(&st.taken) {
            return Err(format!("{name} delivers bytes that are not a prefix before a fault"));
        }
    }
    // a writer that takes nothing
    struct Full<'a>(&'a mut Vec<u8>, usize);
    impl Write for Full<'_> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            let n = b.len().min(self.1 - self.0.len());
            self.0.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let mut got = Vec::new();
    c.checks += 1;
    let r = toon::encode_to_writer(Full(&mut got, at), v, o);
    if !is_io(&r, None) {
        return Err(format!("the writer is full after {at} of {} bytes, encode_to_writer gives {r:?}", want.len()));
    }
    Ok(())
}
fn writer(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_options(s);
    let v = value(s, cfg(s));
    let mut p = plan(s, 0, false);
    c.repr = format!("{} {:?} {:?} {v}", opts_text(&o), p.chunks, p.interrupts);
    check_writer(s, c, &v, &o, &mut p)
}
fn writer_large(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_options(s);
    let unit: &str = s.pick::<&str>(&["é", "日", "😀", "a"]);
    let n = 1 + s.below(12);
    let v: Value = (0..n).map(|_| Value::String(unit.repeat(1 + s.below(6000)))).collect::<Vec<_>>().into();
    let mut p = plan(s, 0, true);
    c.repr = format!("{} {:?} {:?} {:x}", opts_text(&o), p.chunks, p.interrupts, hash_str(&v.to_string()));
    check_writer(s, c, &v, &o, &mut p)
}
