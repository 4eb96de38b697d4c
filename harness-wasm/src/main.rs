//! Answers calls of the bindings over a pipe, in a process of its own: toon-wasm brings its own
//! global allocator. Request: op, flag, flag, length (u32), text. Answer: status, length (u32), text.
use std::io::{Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(serve).unwrap();
    let _ = t.join();
}

fn serve() {
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut buf = Vec::new();
    loop {
        let mut h = [0u8; 7];
        if i.read_exact(&mut h).is_err() {
            return;
        }
        let n = u32::from_le_bytes(h[3..].try_into().unwrap()) as usize;
        buf.resize(n, 0);
        if i.read_exact(&mut buf).is_err() {
            return;
        }
        let text = std::str::from_utf8(&buf).expect("text");
        let (a, b) = (h[1] == 1, h[2] == 1);
        let r = std::panic::catch_unwind(|| match h[0] {
            b'j' => toon_wasm::json_to_toon(text, a, b),
            b't' => toon_wasm::toon_to_json(text, a, b),
            _ => Ok(toon_wasm::version()),
        });
        let (st, out) = match r {
            Ok(Ok(t)) => (0u8, t),
            Ok(Err(e)) => (1, e),
            Err(_) => (2, String::new()),
        };
        let ok = o.write_all(&[st]).and_then(|()| o.write_all(&(out.len() as u32).to_le_bytes())).and_then(|()| o.write_all(out.as_bytes())).and_then(|()| o.flush());
        if ok.is_err() {
            return;
        }
    }
}
