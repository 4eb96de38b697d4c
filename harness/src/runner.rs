//! Drives the sub-checks of one property: parent process (supervision, evidence, verdict) and
//! worker process (search on 8 threads, shrinking). The worker is a separate process so that a stack
//! overflow or abort inside the library is seen, attributed to a case and reported.

use crate::engine::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
    /// Named inputs of findings that were recorded rather than repaired: true while it still fails.
    pub known: Vec<(&'static str, fn() -> bool)>,
}

const THREADS: usize = 8;
const STACK: usize = 8 << 20;

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn set_name() -> &'static str {
    if cfg!(feature = "set-all") {
        "all"
    } else if cfg!(feature = "set-alloc") {
        "alloc"
    } else {
        "default"
    }
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn run_main(props: fn() -> Vec<Prop>) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props().into_iter().find(|p| p.id == id);
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = &args[2];
            let Some(p) = find(id) else {
                eprintln!("unknown property {id}");
                return 2;
            };
            let extra: Vec<(String, String)> = args[3..]
                .iter()
                .filter_map(|a| a.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
                .collect();
            parent(&p, &extra)
        }
        Some("worker") => {
            let Some(p) = find(&args[2]) else { return 3 };
            worker(&p, &args[3], args[4].parse().unwrap(), args[5] == "thorough", Path::new(&args[6]))
        }
        #[cfg(feature = "guided")]
        Some("guided") => {
            // guided PROP OUT SEED TIER SLOT PART PARTS
            quiet_panics();
            let Some(p) = find(&args[2]) else { return 3 };
            let a: Vec<String> = args.clone();
            on_big_stack(move || crate::guided::search(&p, &a[3], a[4].parse().unwrap(), a[5] == "thorough", Path::new(&a[6]), a[7].parse().unwrap(), a[8].parse().unwrap()))
        }
        Some("tail") => {
            // tail PROP SUB SIZE SEED PREFIX DUMP : a case of the guided search
            let Some(p) = find(&args[2]) else { return 3 };
            let prefix = read_u64s(Path::new(&args[6]));
            let (size, seed) = (args[4].parse().unwrap(), args[5].parse().unwrap());
            let dump = File::create(&args[7]).expect("dump file");
            quiet_panics();
            let f = p.subs.iter().find(|s| s.name == args[3]).unwrap().f;
            on_big_stack(move || {
                let mut src = Src::guided(&prefix, seed, size);
                src.dump = Some(dump);
                match run_case(f, &mut src, &mut Case::default()) {
                    Ok(()) => 0,
                    Err(m) => {
                        println!("{m}");
                        1
                    }
                }
            })
        }
        Some("one") => {
            // one PROP SUB SEED INDEX DUMP : generate one case, dumping every choice as it is taken
            let Some(p) = find(&args[2]) else { return 3 };
            one(&p, &args[3], args[4].parse().unwrap(), args[5].parse().unwrap(), args.get(6).map(|s| s.as_str()))
        }
        Some("show") => {
            // show FILE : what the case consists of, without calling the library
            DRY.store(true, Ordering::Relaxed);
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay json");
            crate::words::load(&v["words"]);
            let Some(p) = find(v["property"].as_str().unwrap()) else { return 3 };
            replay(&p, &v)
        }
        Some("replay") => {
            let txt = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: Value = serde_json::from_str(&txt).expect("replay json");
            crate::words::load(&v["words"]);
            let id = v["property"].as_str().unwrap();
            let Some(p) = find(id) else { return 3 };
            replay(&p, &v)
        }
        Some("serve") => {
            quiet_panics();
            on_big_stack(crate::props::peer::serve)
        }
        Some("words") => {
            // every literal of the sources, for tools/source-words.json
            println!("{}", serde_json::to_string_pretty(&crate::words::all()).unwrap());
            0
        }
        Some("list") => {
            for p in props() {
                for s in &p.subs {
                    println!("{} {} quick={} thorough={}", p.id, s.name, s.quick, s.thorough);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: run ID [set=exe ...] | replay FILE | list");
            2
        }
    }
}

fn read_u64s(f: &Path) -> Vec<u64> {
    std::fs::read(f).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

fn one(p: &Prop, sub: &str, seed: u64, index: u64, dump: Option<&str>) -> i32 {
    let dump = dump.map(|d| File::create(d).expect("dump file"));
    quiet_panics();
    let s = p.subs.iter().find(|s| s.name == sub).unwrap();
    let (f, size, cs) = (s.f, case_size(index, s.max_size), case_seed(seed, p.id, s.name, index));
    on_big_stack(move || {
        let mut src = Src::random(cs, size);
        src.dump = dump;
        let mut case = Case::default();
        match run_case(f, &mut src, &mut case) {
            Ok(()) => 0,
            Err(m) => {
                println!("{}", m);
                1
            }
        }
    })
}

fn replay(p: &Prop, v: &Value) -> i32 {
    quiet_panics();
    let sub = v["sub"].as_str().unwrap();
    let Some(s) = p.subs.iter().find(|s| s.name == sub) else { return 3 };
    let size = v["size"].as_u64().unwrap() as u32;
    let f = s.f;
    let id = p.id;
    if let Some(c) = v["choices"].as_array() {
        let ch: Vec<u64> = c.iter().map(|x| x.as_u64().unwrap()).collect();
        on_big_stack(move || {
            let mut src = Src::replay(&ch, size);
            let mut case = Case::default();
            match run_case(f, &mut src, &mut case) {
                Ok(()) => {
                    println!("replay: property={id} holds on this case");
                    0
                }
                Err(m) => {
                    println!("replay: property={id} FAILS: {m}\n{}", case.repr);
                    1
                }
            }
        })
    } else {
        one(p, sub, v["seed"].as_u64().unwrap(), v["index"].as_u64().unwrap(), None)
    }
}

fn worker(p: &Prop, out: &str, seed: u64, thorough: bool, slots: &Path) -> i32 {
    let sets: u64 = std::env::var("VERIF_SETS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    quiet_panics();
    let slot_file = Arc::new(File::options().write(true).open(slots).expect("slots"));
    let mut report = Vec::new();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_SUB").ok();
    for (si, s) in p.subs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != s.name) {
            continue;
        }
        // The counts in the tables are for a first look; a registered run takes this many times more.
        let base = if thorough { 8.0 } else { 6.0 };
        let n = ((if thorough { s.thorough } else { s.quick }) as f64 * base * scale) as u64;
        // On a slow machine a quick run stops early rather than running out of its time.
        let budget = Duration::from_secs(if thorough { 5 * 3600 } else { 420 } / p.subs.len() as u64 / sets.max(1));
        let t0 = Instant::now();
        let next = Arc::new(AtomicU64::new(0));
        let min_fail = Arc::new(AtomicU64::new(u64::MAX));
        let fails: Arc<Mutex<BTreeMap<u64, (Failing, u32)>>> = Default::default();
        let stats = Arc::new(Mutex::new(Stats::default()));
        let mut hs = Vec::new();
        for t in 0..THREADS {
            let (next, min_fail, fails, stats, slot_file) = (next.clone(), min_fail.clone(), fails.clone(), stats.clone(), slot_file.clone());
            let (f, id, name, max_size) = (s.f, p.id, s.name, s.max_size);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn(move || {
                        let mut st = Stats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || (i % 64 == 0 && t0.elapsed() > budget) || i > min_fail.load(Ordering::Relaxed) {
                                break;
                            }
                            let mut rec = [0u8; 24];
                            rec[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                            rec[8..16].copy_from_slice(&i.to_le_bytes());
                            let _ = slot_file.write_at(&rec, (t * 24) as u64);
                            let size = case_size(i, max_size);
                            let mut src = Src::random(case_seed(seed, id, name, i), size);
                            let mut case = Case::default();
                            let r = run_case(f, &mut src, &mut case);
                            st.evaluations += 1;
                            st.checks += case.checks.max(1);
                            st.max_len = st.max_len.max(case.repr.len());
                            for l in &case.labels {
                                *st.labels.entry(l.to_string()).or_default() += 1;
                            }
                            if case.nontrivial && r.is_ok() {
                                let fresh = st.nontrivial.insert(hash_str(&case.repr));
                                if fresh && (i % (n / 5).max(1)) < 8 && st.samples.len() < 3 {
                                    st.samples.push((i, clip(&case.repr, 600)));
                                }
                            }
                            if let Err(m) = r {
                                min_fail.fetch_min(i, Ordering::Relaxed);
                                fails.lock().unwrap().insert(i, ((src.taken, m, case.repr), size));
                            }
                        }
                        let _ = slot_file.write_at(&[0u8; 24], (t * 24) as u64);
                        stats.lock().unwrap().merge(st);
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            h.join().unwrap();
        }
        let mut st = std::mem::take(&mut *stats.lock().unwrap());
        st.samples.sort();
        st.samples.truncate(4);
        let fail = fails.lock().unwrap().iter().next().map(|(i, (c, z))| (*i, c.clone(), *z));
        let fail_json = fail.map(|(i, found, size)| {
            // record the crashing candidate while shrinking, too
            let mut rec = [0u8; 24];
            rec[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
            rec[8..16].copy_from_slice(&i.to_le_bytes());
            rec[16] = 1;
            let _ = slot_file.write_at(&rec, 0);
            let f = s.f;
            let (c, m, r) = on_big_stack(move || {
                let mut budget = 3000;
                shrink(f, size, found, &mut budget)
            });
            let _ = slot_file.write_at(&[0u8; 24], 0);
            json!({"sub": s.name, "index": i, "size": size, "choices": c, "msg": m, "repr": r})
        });
        let failed = fail_json.is_some();
        report.push(json!({
            "sub": s.name, "evaluations": st.evaluations, "oracle_checks": st.checks, "distinct_nontrivial": st.nontrivial.len(),
            "labels": st.labels, "samples": st.samples.iter().map(|(i, s)| json!({"index": i, "case": s})).collect::<Vec<_>>(),
            "longest_case_bytes": st.max_len, "wall_s": t0.elapsed().as_secs_f64(), "failure": fail_json,
        }));
        if failed {
            break;
        }
    }
    std::fs::write(out, serde_json::to_string(&report).unwrap()).unwrap();
    0
}

struct WorkerResult {
    report: Option<Vec<Value>>,
    crash: Option<Value>,
    error: Option<String>,
}

/// Runs the harness under limits on address space (kB) and CPU time (s).
fn limited(exe: &str, kb: u64, cpu: u64) -> Command {
    let mut c = Command::new("/bin/sh");
    c.args(["-c", &format!("ulimit -c 0; ulimit -v {kb}; [ {cpu} = 0 ] || ulimit -t {cpu}; exec \"$@\""), "sh", exe]);
    c.env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stderr(Stdio::null());
    c
}

enum Wait {
    Done(std::process::ExitStatus),
    TimedOut,
    /// (sub, index): this case has been running for far too long.
    Stuck(usize, u64),
}
const STUCK: Duration = Duration::from_secs(40);

fn slots_of(data: &[u8]) -> Vec<(usize, u64, bool)> {
    data.chunks_exact(24)
        .filter_map(|r| {
            let si = u64::from_le_bytes(r[..8].try_into().unwrap());
            (si > 0).then(|| (si as usize - 1, u64::from_le_bytes(r[8..16].try_into().unwrap()), r[16] == 1))
        })
        .collect()
}

fn wait_timeout(child: &mut std::process::Child, limit: Duration, slots: Option<&Path>) -> Wait {
    let t0 = Instant::now();
    let mut since: BTreeMap<(usize, u64, bool), Instant> = BTreeMap::new();
    let mut looked = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return Wait::Done(s),
            Ok(None) => {}
            Err(_) => return Wait::TimedOut,
        }
        let mut verdict = (t0.elapsed() > limit).then_some(Wait::TimedOut);
        if let (Some(f), true) = (slots, looked.elapsed() > Duration::from_secs(1)) {
            looked = Instant::now();
            let now = slots_of(&std::fs::read(f).unwrap_or_default());
            since.retain(|k, _| now.contains(k));
            for k in now {
                let t = since.entry(k).or_insert(looked);
                if t.elapsed() > if k.2 { STUCK * 4 } else { STUCK } {
                    verdict = Some(Wait::Stuck(k.0, k.1));
                }
            }
        }
        if let Some(v) = verdict {
            let _ = child.kill();
            let _ = child.wait();
            return v;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

static TMPN: AtomicUsize = AtomicUsize::new(0);
fn tmp(name: &str) -> PathBuf {
    let d = root().join("target").join("tmp");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}-{}-{}", name, std::process::id(), TMPN.fetch_add(1, Ordering::Relaxed)))
}

/// How one case ended in a process of its own.
enum Alone {
    Fine,
    Failed(String),
    Died(String),
    Unknown,
}
fn alone(exe: &str, args: &[&str]) -> Alone {
    let out = tmp("alone");
    let Ok(f) = File::create(&out) else { return Alone::Unknown };
    let Ok(mut c) = limited(exe, 6_000_000, 30).args(args).stdout(f).spawn() else { return Alone::Unknown };
    let st = wait_timeout(&mut c, Duration::from_secs(240), None);
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    match st {
        Wait::Done(s) => match (s.code(), s.signal()) {
            (Some(0), _) => Alone::Fine,
            (Some(1), _) => Alone::Failed(text),
            (_, Some(6 | 11 | 7 | 4)) => Alone::Died(format!("the process died with signal {} (stack overflow, abort or memory exhausted) in this case", s.signal().unwrap())),
            (_, Some(9 | 24)) => Alone::Died("the case does not end: stopped after 30 s of CPU time".into()),
            _ => Alone::Unknown,
        },
        _ => Alone::Unknown,
    }
}

/// A case that took its process down, run on its own; shrunk if that is quick. `how` are the
/// arguments that make the case, without the name of the dump file.
fn crash_report(p: &Prop, exe: &str, sub: &Sub, idx: u64, size: u32, how: &[&str]) -> Option<Value> {
    let dump = tmp("dump");
    let t0 = Instant::now();
    let args: Vec<&str> = how.iter().copied().chain([dump.to_str().unwrap()]).collect();
    let r = alone(exe, &args);
    let took = t0.elapsed();
    let choices = read_u64s(&dump);
    let _ = std::fs::remove_file(&dump);
    let file = tmp("cand");
    let write = |ch: &[u64]| {
        let v = json!({"property": p.id, "sub": sub.name, "size": size, "choices": ch});
        let _ = std::fs::write(&file, v.to_string());
    };
    let report = |choices: Vec<u64>, msg: String| {
        write(&choices);
        let repr = match alone(exe, &["show", file.to_str().unwrap()]) {
            Alone::Failed(t) => t.split_once("dry run\n").map(|x| x.1.trim_end().to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        let _ = std::fs::remove_file(&file);
        Some(json!({"sub": sub.name, "index": idx, "size": size, "choices": choices, "msg": msg, "repr": repr}))
    };
    match r {
        Alone::Fine | Alone::Unknown => None,
        Alone::Failed(t) => report(choices, t),
        Alone::Died(m) => {
            let mut budget = if took < Duration::from_secs(2) { 600 } else { 0 };
            let (c, m2, _) = shrink_with(choices.clone(), &mut budget, &|cand| {
                write(cand);
                match alone(exe, &["replay", file.to_str().unwrap()]) {
                    Alone::Died(m) => Some((cand.to_vec(), m, String::new())),
                    _ => None,
                }
            });
            if m2.starts_with("not reproduced") { report(choices, m) } else { report(c, m2) }
        }
    }
}
fn crash_random(p: &Prop, exe: &str, seed: u64, si: usize, idx: u64) -> Option<Value> {
    let sub = &p.subs[si];
    crash_report(p, exe, sub, idx, case_size(idx, sub.max_size), &["one", p.id, sub.name, &seed.to_string(), &idx.to_string()])
}
fn crash_guided(p: &Prop, exe: &str, slot: &Path) -> Option<Value> {
    let rec = read_u64s(slot);
    let sub = p.subs.get((*rec.first()? as usize).checked_sub(1)?)?;
    let (idx, size, tail, n) = (*rec.get(1)?, *rec.get(2)? as u32, *rec.get(3)?, *rec.get(4)? as usize);
    let prefix = tmp("prefix");
    let bytes: Vec<u8> = rec.get(5..5 + n)?.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(&prefix, bytes).ok()?;
    let r = crash_report(p, exe, sub, idx, size, &["tail", p.id, sub.name, &size.to_string(), &tail.to_string(), prefix.to_str().unwrap()]);
    let _ = std::fs::remove_file(&prefix);
    r
}

/// The coverage-guided search: several processes of one thread.
fn guided(p: &Prop, exe: &str, seed: u64, tier: &str, limit: Duration) -> WorkerResult {
    let none = |m: Option<String>, c: Option<Value>| WorkerResult { report: None, crash: c, error: m };
    let parts: Vec<(std::process::Child, PathBuf, PathBuf)> = (0..THREADS)
        .filter_map(|k| {
            let (out, slot) = (tmp("gout"), tmp("gslot"));
            std::fs::write(&slot, [0u8; 8]).ok()?;
            let c = limited(exe, 6_000_000, 0)
                .args(["guided", p.id, out.to_str().unwrap(), &seed.to_string(), tier, slot.to_str().unwrap(), &k.to_string(), &THREADS.to_string()])
                .stdout(Stdio::null())
                .spawn()
                .ok()?;
            Some((c, out, slot))
        })
        .collect();
    if parts.len() < THREADS {
        for mut c in parts {
            let _ = (c.0.kill(), c.0.wait());
        }
        return none(Some(format!("cannot start {exe}")), None);
    }
    let t0 = Instant::now();
    let mut at: Vec<(Vec<u8>, Instant)> = vec![(vec![], t0); parts.len()];
    let mut done: Vec<Option<std::process::ExitStatus>> = vec![None; parts.len()];
    let mut parts = parts;
    let mut crash = None;
    let mut error = None;
    let mut looked = t0;
    while done.iter().any(|d| d.is_none()) && crash.is_none() && error.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        let look = looked.elapsed() > Duration::from_secs(1);
        if look {
            looked = Instant::now();
        }
        for (k, (c, out, slot)) in parts.iter_mut().enumerate() {
            if done[k].is_some() {
                continue;
            }
            let mut bad = false;
            if let Ok(Some(st)) = c.try_wait() {
                done[k] = Some(st);
                bad = !(st.success() && out.exists());
            } else if t0.elapsed() > limit {
                error = Some("the guided search ran out of time: no answer".to_string());
            } else if look {
                let mut now = vec![0u8; 16];
                let _ = File::open(&*slot).and_then(|f| f.read_at(&mut now, 0));
                if at[k].0 != now {
                    at[k] = (now, Instant::now());
                } else {
                    bad = at[k].1.elapsed() > STUCK * 3;
                }
            }
            if bad {
                let _ = (c.kill(), c.wait());
                crash = crash_guided(p, exe, slot);
                if crash.is_none() {
                    error = Some(format!("a guided search process ended or got stuck ({:?}), not reproduced", done[k]));
                }
                break;
            }
        }
    }
    let mut all: Vec<Vec<Value>> = Vec::new();
    for (c, out, slot) in &mut parts {
        let _ = (c.kill(), c.wait());
        all.extend(std::fs::read_to_string(&*out).ok().and_then(|s| serde_json::from_str(&s).ok()));
        let _ = (std::fs::remove_file(out), std::fs::remove_file(slot));
    }
    if crash.is_some() || error.is_some() {
        return none(error, crash);
    }
    // One entry for each sub-check
    let mut rep = Vec::new();
    for s in &p.subs {
        let es: Vec<&Value> = all.iter().flatten().filter(|e| e["sub"] == s.name).collect();
        if es.is_empty() {
            continue;
        }
        let sum = |k: &str| es.iter().map(|e| e[k].as_u64().unwrap_or(0)).sum::<u64>();
        let max = |k: &str| es.iter().map(|e| e[k].as_u64().unwrap_or(0)).max();
        let failure = es.iter().map(|e| e["failure"].clone()).find(|f| !f.is_null());
        let wall = es.iter().map(|e| e["wall_s"].as_f64().unwrap_or(0.0)).fold(0.0, f64::max);
        rep.push(json!({
            "sub": s.name, "search": "coverage-guided", "evaluations": sum("evaluations"), "oracle_checks": sum("oracle_checks"),
            "nontrivial": sum("nontrivial"), "kept": sum("kept"), "edges_reached": max("edges"), "edges_total": max("edges_total"), "wall_s": wall, "failure": failure,
        }));
    }
    WorkerResult { report: Some(rep), crash: None, error: None }
}

fn spawn_worker(p: &Prop, set: &str, exe: &str, seed: u64, tier: &str, limit: Duration) -> WorkerResult {
    let out = tmp("out");
    let slots = tmp("slots");
    std::fs::write(&slots, vec![0u8; THREADS * 24]).unwrap();
    let mut child = match limited(exe, 24_000_000, 0)
        .args(["worker", p.id, out.to_str().unwrap(), &seed.to_string(), tier, slots.to_str().unwrap()])
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return WorkerResult { report: None, crash: None, error: Some(format!("cannot start {exe}: {e}")) },
    };
    let st = wait_timeout(&mut child, limit, Some(&slots));
    let slot_data = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    let rep = std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str::<Vec<Value>>(&s).ok());
    let _ = std::fs::remove_file(&out);
    let err = |m: String| WorkerResult { report: None, crash: None, error: Some(m) };
    match st {
        Wait::TimedOut => err(format!("worker ({set}) ran out of time: no answer")),
        Wait::Done(s) if s.success() && rep.is_some() => WorkerResult { report: rep, crash: None, error: None },
        Wait::Stuck(si, idx) => match crash_random(p, exe, seed, si, idx) {
            Some(c) => WorkerResult { report: None, crash: Some(c), error: None },
            None => err(format!("worker ({set}) was stuck in {} case {idx}, not reproduced", p.subs[si].name)),
        },
        Wait::Done(s) => {
            // SIGABRT / SIGSEGV / SIGBUS / SIGILL: the library took the process down. Find the case.
            let mut cands: Vec<(usize, u64)> = slots_of(&slot_data).iter().map(|c| (c.0, c.1)).collect();
            cands.sort();
            cands.dedup();
            for (si, idx) in cands {
                if let Some(c) = crash_random(p, exe, seed, si, idx) {
                    return WorkerResult { report: None, crash: Some(c), error: None };
                }
            }
            err(format!("worker ({set}) ended with {s}, not reproduced"))
        }
    }
}

fn parent(p: &Prop, extra: &[(String, String)]) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let limit = Duration::from_secs(std::env::var("VERIF_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 780 } else { 6 * 3600 }));
    let self_exe = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    let mut workers: Vec<(String, String)> = vec![(set_name().to_string(), self_exe)];
    workers.extend(extra.iter().cloned());
    // Each worker process learns how many share the time.
    unsafe { std::env::set_var("VERIF_SETS", workers.len().to_string()) };

    let mut subs_json = Vec::new();
    let (mut evals, mut checks, mut distinct) = (0u64, 0u64, 0u64);
    let mut guided_nontrivial = 0u64;
    let mut samples = Vec::new();
    let mut violation: Option<Value> = None;
    let mut error: Option<String> = None;
    // Under "guided", the build with edge counters, if there is one.
    let searches: Vec<(String, String, bool)> = workers
        .iter()
        .map(|(s, e)| if let Some(s) = s.strip_prefix("guided-") { (s.to_string(), e.clone(), true) } else { (s.clone(), e.clone(), false) })
        .collect();
    let which = std::env::var("VERIF_SEARCH").unwrap_or_default();
    for (set, exe, with_coverage) in &searches {
        if which == if *with_coverage { "random" } else { "guided" } {
            continue;
        }
        let left = limit.saturating_sub(t0.elapsed());
        let r = if *with_coverage { guided(p, exe, seed, tier, left) } else { spawn_worker(p, set, exe, seed, tier, left) };
        if let Some(rep) = r.report {
            for s in rep {
                evals += s["evaluations"].as_u64().unwrap_or(0);
                checks += s["oracle_checks"].as_u64().unwrap_or(0);
                guided_nontrivial += s["nontrivial"].as_u64().unwrap_or(0);
                distinct += s["distinct_nontrivial"].as_u64().unwrap_or(0);
                for x in s["samples"].as_array().into_iter().flatten() {
                    samples.push(json!({"set": set, "sub": s["sub"], "case": x["case"], "index": x["index"]}));
                }
                if !s["failure"].is_null() && violation.is_none() {
                    let mut f = s["failure"].clone();
                    f["set"] = json!(set);
                    violation = Some(f);
                }
                let mut s2 = s.clone();
                s2.as_object_mut().unwrap().remove("samples");
                s2.as_object_mut().unwrap().remove("failure");
                s2["set"] = json!(set);
                subs_json.push(s2);
            }
        }
        if let Some(mut c) = r.crash {
            c["set"] = json!(set);
            if violation.is_none() {
                violation = Some(c);
            }
        }
        if let Some(e) = r.error {
            error = Some(e);
        }
        if violation.is_some() {
            break;
        }
    }

    // Findings recorded in known-findings.txt: re-check each named input.
    let kf = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut known_out = Vec::new();
    for line in kf.lines() {
        let Some(rest) = line.strip_prefix("known: ") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (Some(pr), Some(cs), what) = (it.next(), it.next(), it.next().unwrap_or("")) else { continue };
        if pr != format!("property={}", p.id) {
            continue;
        }
        let name = cs.strip_prefix("case=").unwrap_or(cs);
        if let Some((_, f)) = p.known.iter().find(|(n, _)| *n == name) {
            if f() {
                println!("KNOWN-FINDING: property={} {} {}", p.id, name, what);
                known_out.push(json!({"case": name, "what": what}));
            }
        }
    }

    let nviol = violation.is_some() as u64;
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "oracle_checks": checks, "distinct_nontrivial": distinct, "guided_nontrivial": guided_nontrivial, "rule": p.rule,
            "samples": samples, "sub_checks": subs_json, "known_findings": known_out,
        },
        "assumptions": ["the generators and the reference model in /verif/harness state the intended format correctly"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": nviol,
    });
    let evdir = root().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let evf = std::env::var("VERIF_EVIDENCE").map(PathBuf::from).unwrap_or_else(|_| evdir.join(format!("{}.json", p.id)));
    std::fs::write(&evf, serde_json::to_string_pretty(&ev).unwrap()).unwrap();

    if let Some(mut v) = violation {
        v["property"] = json!(p.id);
        v["seed"] = json!(seed);
        v["words"] = crate::words::saved();
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{}-{}-{}.json", p.id, v["sub"].as_str().unwrap(), v["set"].as_str().unwrap()));
        std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("{} [{}/{}] {}", p.id, v["set"].as_str().unwrap(), v["sub"].as_str().unwrap(), v["msg"].as_str().unwrap());
        println!("minimal case:\n{}", clip(v["repr"].as_str().unwrap_or(""), 4000));
        println!("VIOLATION property={} replay={}", p.id, f.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR: {e}");
        return 2;
    }
    println!("OK property={} tier={} seed={} evaluations={} checks={} distinct_nontrivial={} wall={:.1}s", p.id, tier, seed, evals, checks, distinct, t0.elapsed().as_secs_f64());
    0
}

#[allow(dead_code)]
static STOP: AtomicBool = AtomicBool::new(false);
