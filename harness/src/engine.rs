//! A small property-based testing engine.
//!
//! A test case is a sequence of integer choices. In search mode the choices come from a PRNG seeded
//! by (VERIF_SEED, property, sub-check, case index); in replay and shrinking they come from a stored list, and in
//! the coverage-guided search from a mutated list of an earlier case, then from a PRNG. Shrinking edits the choice list (delete, zero,
//! lower), so every generator shrinks without code of its own.

use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    Rng::new(h).next()
}

enum Mode<'a> {
    Random(Rng),
    Replay(&'a [u64]),
    Guided(&'a [u64], Rng),
}

/// The source of every random choice in a case.
pub struct Src<'a> {
    mode: Mode<'a>,
    pub taken: Vec<u64>,
    /// 0..=100, how large this case may get.
    pub size: u32,
    /// A case that draws without end is cut off: after this many choices everything is 0.
    limit: usize,
    /// Every choice is also written here at once (to reproduce a case that ends the process).
    pub dump: Option<std::fs::File>,
}

impl<'a> Src<'a> {
    pub fn random(seed: u64, size: u32) -> Self {
        Src { mode: Mode::Random(Rng::new(seed)), taken: Vec::new(), size, limit: 60_000, dump: None }
    }
    pub fn replay(choices: &'a [u64], size: u32) -> Self {
        Src { mode: Mode::Replay(choices), taken: Vec::new(), size, limit: 60_000, dump: None }
    }
    pub fn guided(choices: &'a [u64], seed: u64, size: u32) -> Self {
        Src { mode: Mode::Guided(choices, Rng::new(seed)), ..Self::replay(&[], size) }
    }
    /// A value in 0..n (n >= 1). Smaller is simpler.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        if self.taken.len() >= self.limit {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => r.next() % n,
            Mode::Replay(c) => c.get(self.taken.len()).copied().unwrap_or(0) % n,
            Mode::Guided(c, r) => c.get(self.taken.len()).copied().unwrap_or_else(|| r.next()) % n,
        };
        self.taken.push(v);
        if let Some(f) = &mut self.dump {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.draw(1 << 32);
        let lo = self.draw(1 << 32);
        (hi << 32) | lo
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// lo..=hi most of the time, and now and then up to `far`.
    pub fn many(&mut self, lo: usize, hi: usize, far: usize) -> usize {
        if let Some(n) = crate::words::size(self, lo, far, 1, 2) {
            return n;
        }
        if self.chance(1, 4) { self.range(lo, far) } else { self.range(lo, hi) }
    }
    /// True with probability num/den; false is the simple outcome.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
    /// A count in 0..=max, small most of the time.
    pub fn count(&mut self, max: usize) -> usize {
        if self.size > 20 && max > 1 {
            if let Some(n) = crate::words::size(self, 2, 600, 1, 400) {
                return n;
            }
        }
        let cap = max.min(1 + (max * self.size as usize) / 100);
        match self.weighted(&[3, 5, 2]) {
            0 => self.below(cap.min(1) + 1),
            1 => 1 + self.below(cap.clamp(1, 4)),
            _ => 1 + self.below(cap.max(1)),
        }
    }
}

/// What a property reports about one case.
#[derive(Default)]
pub struct Case {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    /// The case written out (used for samples, distinctness and replay files).
    pub repr: String,
    /// Several independent oracle evaluations may happen within one case.
    pub checks: u64,
}
impl Case {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
}

pub type PropFn = fn(&mut Src, &mut Case) -> Result<(), String>;

/// One independently driven check of a property.
pub struct Sub {
    pub name: &'static str,
    pub f: PropFn,
    pub quick: u64,
    pub thorough: u64,
    /// Maximum size parameter.
    pub max_size: u32,
}

pub struct Failure {
    pub sub: &'static str,
    pub index: u64,
    pub choices: Vec<u64>,
    pub size: u32,
    pub msg: String,
    pub repr: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub checks: u64,
    pub nontrivial: std::collections::HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<(u64, String)>,
    pub max_len: usize,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.checks += o.checks;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.max_len = self.max_len.max(o.max_len);
    }
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, index: u64) -> u64 {
    let mut r = Rng::new(seed ^ hash_str(prop).rotate_left(17) ^ hash_str(sub).rotate_left(41) ^ index.wrapping_mul(0xA24B_AED4_963E_E407));
    r.next();
    r.next()
}
pub fn case_size(index: u64, max: u32) -> u32 {
    // Sizes cycle so that every prefix of the case sequence covers small and large cases.
    let s = ((index % 100) + 1) as u32;
    (s * max / 100).max(1)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… ({} bytes)", &s[..e], s.len())
    }
}

/// Set in a process that only shows what a case consists of: the first library call ends the case.
pub static DRY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn library_call() {
    if DRY.load(std::sync::atomic::Ordering::Relaxed) {
        panic!("dry run");
    }
}

fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run one case; a panic is a failure of the case.
pub fn run_case(f: PropFn, src: &mut Src, case: &mut Case) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| f(src, case))) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", panic_msg(p))),
    }
}

/// Minimise a failing choice sequence.
pub fn shrink(f: PropFn, size: u32, found: Failing, budget: &mut u64) -> Failing {
    let (start, msg, repr) = found;
    let run = |cand: &[u64]| {
        let mut src = Src::replay(cand, size);
        let mut case = Case::default();
        run_case(f, &mut src, &mut case).err().map(|m| (src.taken, m, case.repr))
    };
    let (c, m, r) = shrink_with(start, budget, &run);
    if m == NOT_REPRODUCED { (c, format!("{msg}\n(failed once, not again from its choices alone: it depends on what else was called)"), repr) } else { (c, m, r) }
}
const NOT_REPRODUCED: &str = "not reproduced from its choice sequence";

/// What a failing candidate gave: the choices it really took, the message, the case written out.
pub type Failing = (Vec<u64>, String, String);

pub fn shrink_with(start: Vec<u64>, budget: &mut u64, run: &dyn Fn(&[u64]) -> Option<Failing>) -> Failing {
    let mut best = start;
    let t0 = std::time::Instant::now();
    let attempt = |cand: &[u64], budget: &mut u64| -> Option<Failing> {
        if *budget == 0 || t0.elapsed().as_secs() > 60 {
            *budget = 0;
            return None;
        }
        *budget -= 1;
        run(cand).map(|(mut t, m, r)| {
            while t.last() == Some(&0) {
                t.pop();
            }
            (t, m, r)
        })
    };
    let (mut msg, mut repr) = match attempt(&best, budget) {
        Some((t, m, r)) => {
            best = t;
            (m, r)
        }
        None => return (best, NOT_REPRODUCED.to_string(), String::new()),
    };
    let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 && *budget > 0 {
            let mut i = best.len();
            while i >= k && *budget > 0 {
                let mut cand = best.clone();
                cand.drain(i - k..i);
                if let Some((t, m, r)) = attempt(&cand, budget) {
                    if better(&t, &best) {
                        best = t;
                        msg = m;
                        repr = r;
                    }
                    i = i.min(best.len());
                }
                if i < k {
                    break;
                }
                i -= if k > 4 { k / 2 } else { 1 };
            }
            k /= 2;
        }
        // delete one and lower an earlier one (length prefixes)
        let mut i = 0;
        while i < best.len() && *budget > 0 && best.len() < 400 {
            if best[i] > 0 {
                for d in 1..=4usize {
                    if i + 1 + d <= best.len() {
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        cand.drain(i + 1..i + 1 + d);
                        if let Some((t, m, r)) = attempt(&cand, budget) {
                            if better(&t, &best) {
                                best = t;
                                msg = m;
                                repr = r;
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        // lower values
        let mut i = 0;
        while i < best.len() && *budget > 0 {
            let orig = best[i];
            if orig > 0 {
                let mut lo = 0u64;
                let mut hi = orig;
                let mut first = true;
                while lo < hi && *budget > 0 {
                    let mid = if first { 0 } else { lo + (hi - lo) / 2 };
                    first = false;
                    if mid >= hi {
                        break;
                    }
                    let mut cand = best.clone();
                    cand[i] = mid;
                    match attempt(&cand, budget) {
                        Some((t, m, r)) if better(&t, &best) => {
                            best = t;
                            msg = m;
                            repr = r;
                            if i >= best.len() {
                                break;
                            }
                            hi = mid.min(best[i]);
                        }
                        _ => lo = mid + 1,
                    }
                }
            }
            i += 1;
        }
        if best == before || *budget == 0 {
            break;
        }
    }
    (best, msg, repr)
}
