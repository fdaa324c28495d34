//! Replays trace files, with a watchdog, and reports.
use crate::base::*;
use crate::{dispatch, known};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Tally {
    traces: usize,
    steps: usize,
    ops: BTreeMap<String, usize>,
    refused: usize,
    known: BTreeMap<String, usize>,
    gone: BTreeMap<String, usize>,
    distinct: std::collections::HashSet<u64>,
    samples: Vec<Value>,
    failures: Vec<Value>,
    errors: Vec<String>,
}

fn hash(v: &Value) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.to_string().hash(&mut h);
    h.finish()
}

/// what each worker is doing, for the watchdog
type Busy = Arc<Vec<Mutex<Option<(Instant, String, usize, String)>>>>;

fn replay_file(path: &str, tally: &Mutex<Tally>, busy: &Mutex<Option<(Instant, String, usize, String)>>) {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            tally.lock().unwrap().errors.push(format!("{path}: {e}"));
            return;
        }
    };
    let doc: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => {
            tally.lock().unwrap().errors.push(format!("{path}: {e}"));
            return;
        }
    };
    let mut ctx = Ctx::default();
    let states = doc["states"].as_array().cloned().unwrap_or_default();
    if states.is_empty() {
        tally.lock().unwrap().errors.push(format!("{path}: no states"));
        return;
    }
    tally.lock().unwrap().traces += 1;
    for (i, st) in states.iter().enumerate() {
        let raw = var(st, "op").cloned().unwrap_or(Value::Null);
        let op = match Op::parse(&raw) {
            Ok(o) => o,
            Err(e) => {
                tally.lock().unwrap().errors.push(format!("{path} state {i}: {e}"));
                return;
            }
        };
        *busy.lock().unwrap() = Some((Instant::now(), path.to_string(), i, op.name.clone()));
        let known = known::site(&ctx, &op);
        // preparing arguments and reading results call the library as well
        let res = match plain(|| {
            dispatch(&mut ctx, &op).and_then(|_| match ctx.compare_state(st) {
                Ok(()) => Ok(()),
                Err(e) => Err(Fail::Mismatch(format!("state after the call: {e}"))),
            })
        }) {
            Out::Val(r) => r,
            Out::Err(e) | Out::Panic(e) => mismatch(format!("aborted while arguments were prepared or results read: {e}")),
        };
        *busy.lock().unwrap() = None;
        let mut t = tally.lock().unwrap();
        t.steps += 1;
        *t.ops.entry(op.name.clone()).or_insert(0) += 1;
        if op.ok != "ok" {
            t.refused += 1;
        }
        let h = hash(&raw);
        if t.distinct.insert(h) && (t.samples.len() < 3 && i > 0 && t.steps % 7 == 0 || t.samples.is_empty() && i > 0) {
            let s = raw.to_string();
            if s.len() < 4000 {
                t.samples.push(simplify(&raw));
            }
        }
        match res {
            Ok(()) => {}
            Err(Fail::Mismatch(m)) if known.map_or(false, |(_, how)| known::is_it(how, &m)) => {
                *t.known.entry(known.unwrap().0.to_string()).or_insert(0) += 1;
                drop(t);
                if let Err(e) = ctx.adopt(st) {
                    tally.lock().unwrap().errors.push(format!("{path} state {i}: {e}"));
                    return;
                }
            }
            Err(Fail::Mismatch(m)) if m.contains(GONE) => {
                *t.gone.entry(op.name.clone()).or_insert(0) += 1;
                drop(t);
                if let Err(e) = ctx.adopt(st) {
                    tally.lock().unwrap().errors.push(format!("{path} state {i}: {e}"));
                    return;
                }
            }
            Err(Fail::Mismatch(m)) => {
                t.failures.push(json!({"trace": path, "state": i, "op": op.name, "detail": m}));
                return;
            }
            Err(Fail::Driver(m)) => {
                t.errors.push(format!("{path} state {i} {}: {m}", op.name));
                return;
            }
        }
    }
}

fn report(tally: &Mutex<Tally>) -> i32 {
    let t = tally.lock().unwrap();
    let out = json!({"traces": t.traces, "steps": t.steps, "ops": t.ops, "refused": t.refused, "known": t.known, "gone": t.gone, "distinct": t.distinct.len(),
        "samples": t.samples, "failures": t.failures, "errors": t.errors});
    println!("{out}");
    if !t.failures.is_empty() {
        3
    } else if !t.errors.is_empty() {
        2
    } else {
        0
    }
}

pub fn main() {
    let mut files = Vec::new();
    let mut threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let mut limit = 120u64;
    let mut warm = false;
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--threads" => threads = args.next().and_then(|x| x.parse().ok()).unwrap_or(threads),
            "--op-timeout" => limit = args.next().and_then(|x| x.parse().ok()).unwrap_or(limit),
            "--warm" => warm = true,
            _ => files.push(a),
        }
    }
    if std::env::var("REPLAY_SHOW_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if warm {
        crate::warm_up();
    }
    let tally = Arc::new(Mutex::new(Tally::default()));
    let busy: Busy = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let files = Arc::new(files);
    // a call that does not return is a violation as well
    {
        let (busy, tally) = (busy.clone(), tally.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for b in busy.iter() {
                let b = b.lock().unwrap().clone();
                if let Some((t0, path, i, name)) = b {
                    if t0.elapsed() > Duration::from_secs(limit) {
                        tally.lock().unwrap().failures.push(
                            json!({"trace": path, "state": i, "op": name, "detail": format!("the call did not return within {limit} s")}));
                        let code = report(&tally);
                        std::process::exit(code);
                    }
                }
            }
        });
    }
    let handles: Vec<_> = (0..threads)
        .map(|w| {
            let (tally, busy, next, files) = (tally.clone(), busy.clone(), next.clone(), files.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= files.len() {
                        break;
                    }
                    replay_file(&files[i], &tally, &busy[w]);
                })
                .unwrap()
        })
        .collect();
    for h in handles {
        if h.join().is_err() {
            tally.lock().unwrap().errors.push("a driver thread panicked outside a call".into());
        }
    }
    std::process::exit(report(&tally));
}
