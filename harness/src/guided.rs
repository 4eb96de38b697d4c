//! Coverage-guided search over the choice sequences of a sub-check.
//!
//! The library is built with edge counters (`tools/cov-rustc.sh`); a case that reaches an edge, or an
//! order of magnitude of its count, that no earlier case reached is kept, and new cases are made by
//! editing the choices of kept ones. One process searches with one thread; several run side by side.

use crate::engine::*;
use crate::runner::Prop;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::path::Path;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

static START: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static LEN: AtomicUsize = AtomicUsize::new(0);

/// The compiler's instrumentation calls this with the counters of each instrumented unit. They all
/// lie in one section, so the whole range is what counts.
#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let n = stop as usize - start as usize;
    if n > LEN.load(Ordering::Relaxed) {
        START.store(start, Ordering::Relaxed);
        LEN.store(n, Ordering::Relaxed);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

fn counters() -> &'static mut [u8] {
    let p = START.load(Ordering::Relaxed);
    if p.is_null() { &mut [] } else { unsafe { std::slice::from_raw_parts_mut(p, LEN.load(Ordering::Relaxed)) } }
}
fn bucket(n: u8) -> u8 {
    match n {
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}
/// Adds what the counters show to `seen`; true if anything of it is new.
fn absorb(seen: &mut [u8]) -> bool {
    let mut new = false;
    for (c, s) in counters().iter().zip(seen) {
        if *c != 0 {
            let b = bucket(*c);
            if *s & b == 0 {
                *s |= b;
                new = true;
            }
        }
    }
    new
}

/// A new choice sequence from a kept one.
fn edit(r: &mut Rng, a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut v = a.to_vec();
    let below = |r: &mut Rng, n: usize| (r.next() % n.max(1) as u64) as usize;
    for _ in 0..1 + below(r, 4) {
        let n = v.len();
        if n == 0 {
            return v;
        }
        let i = below(r, n);
        match below(r, 10) {
            // one choice
            0..=3 => {
                v[i] = match below(r, 4) {
                    0 => r.next() % 8,
                    1 => v[i].wrapping_add(1),
                    2 => v[i].wrapping_sub(1) & 0xffff_ffff,
                    _ => r.next() >> 32,
                }
            }
            // what follows is new
            4 => v.truncate(i),
            5 => {
                let k = (1 + below(r, 8)).min(n - i);
                v.drain(i..i + k);
            }
            6 => {
                let k = (1 + below(r, 12)).min(n - i);
                let part = v[i..i + k].to_vec();
                let at = below(r, n);
                v.splice(at..at, part);
            }
            7 => {
                let k = 1 + below(r, 3);
                let new: Vec<u64> = (0..k).map(|_| r.next() >> 32).collect();
                v.splice(i..i, new);
            }
            // a part of another one
            8 if !b.is_empty() => {
                let j = below(r, b.len());
                let k = (1 + below(r, 24)).min(b.len() - j);
                let to = (i + k).min(n);
                v.splice(i..to, b[j..j + k].to_vec());
            }
            _ if !b.is_empty() => {
                let j = below(r, b.len());
                v.truncate(i);
                v.extend_from_slice(&b[j..]);
            }
            _ => v[i] = 0,
        }
    }
    v
}

struct Kept {
    choices: Vec<u64>,
    size: u32,
}

/// One searching process.
pub fn search(p: &Prop, out: &str, seed: u64, thorough: bool, slot: &Path, part: u64, parts: u64) -> i32 {
    let file = std::fs::File::options().write(true).open(slot).expect("slot");
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_SUB").ok();
    let sets: u64 = std::env::var("VERIF_SETS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut report = Vec::new();
    for (si, s) in p.subs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != s.name) {
            continue;
        }
        let base = if thorough { 4.0 } else { 0.4 };
        let n = ((if thorough { s.thorough } else { s.quick }) as f64 * base * scale) as u64 / parts;
        let budget = std::time::Duration::from_secs(if thorough { 2 * 3600 } else { 150 } / p.subs.len() as u64 / sets.max(1));
        let t0 = std::time::Instant::now();
        let mut r = Rng::new(case_seed(seed, p.id, s.name, u64::MAX - part));
        let mut seen = vec![0u8; counters().len()];
        let mut kept: Vec<Kept> = Vec::new();
        let mut nontrivial = HashSet::new();
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let (mut evaluations, mut checks) = (0u64, 0u64);
        let mut failure = Value::Null;
        for i in 0..n {
            if i % 64 == 0 && t0.elapsed() > budget {
                break;
            }
            let (mut prefix, mut size) = (Vec::new(), case_size(r.next() % 100, s.max_size));
            if !kept.is_empty() && i >= 100 && r.next() % 8 != 0 {
                // newer ones more often
                let k = kept.len() as u64;
                let pick = |r: &mut Rng| (r.next() % k).max(r.next() % k) as usize;
                let (a, b) = (pick(&mut r), pick(&mut r));
                prefix = edit(&mut r, &kept[a].choices, &kept[b].choices);
                size = kept[a].size;
            }
            let tail = r.next();
            let mut rec = Vec::with_capacity(40 + prefix.len() * 8);
            for x in [si as u64 + 1, i, size as u64, tail, prefix.len() as u64].iter().chain(&prefix) {
                rec.extend_from_slice(&x.to_le_bytes());
            }
            let _ = file.write_at(&rec, 0);
            let mut src = Src::guided(&prefix, tail, size);
            let mut case = Case::default();
            counters().fill(0);
            let res = run_case(s.f, &mut src, &mut case);
            evaluations += 1;
            checks += case.checks.max(1);
            for l in &case.labels {
                *labels.entry(l).or_default() += 1;
            }
            if let Err(m) = res {
                let taken = std::mem::take(&mut src.taken);
                let mut b = 3000;
                let (c, m, repr) = shrink(s.f, size, (taken, m, case.repr), &mut b);
                failure = json!({"sub": s.name, "index": i, "size": size, "choices": c, "msg": m, "repr": repr, "guided": true});
                break;
            }
            if case.nontrivial {
                nontrivial.insert(hash_str(&case.repr));
            }
            if absorb(&mut seen) && src.taken.len() < 4000 {
                kept.push(Kept { choices: src.taken, size });
            }
        }
        let _ = file.write_at(&[0u8; 8], 0);
        let failed = !failure.is_null();
        report.push(json!({
            "sub": s.name, "evaluations": evaluations, "oracle_checks": checks, "nontrivial": nontrivial.len(), "kept": kept.len(), "labels": labels,
            "edges": seen.iter().filter(|x| **x != 0).count(), "edges_total": seen.len(), "failure": failure, "wall_s": t0.elapsed().as_secs_f64(),
        }));
        if failed {
            break;
        }
    }
    std::fs::write(out, serde_json::to_string(&report).unwrap()).unwrap();
    0
}
