mod ast;
mod case;
mod dump;
mod gen;
mod lex;
mod oracle;
mod parse;
mod props;

use case::{Case, Out};
use gen::Rng;
use serde_json::json;
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub gen: fn(&mut Rng) -> Case,
    pub check: fn(&Case) -> Out,
    /// fixed cases run before the generated ones
    pub fixed: fn() -> Vec<Case>,
}

static PANIC_AT: Mutex<Option<String>> = Mutex::new(None);

fn run_check(p: &Prop, c: &Case) -> Out {
    match catch_unwind(AssertUnwindSafe(|| (p.check)(c))) {
        Ok(o) => o,
        Err(e) => {
            let msg = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = PANIC_AT.lock().unwrap().clone().unwrap_or_default();
            Out::Fail(format!("panic at {at}"), format!("panicked at {at}: {msg}"))
        }
    }
}
fn fails_same(p: &Prop, c: &Case, class: &str) -> bool {
    matches!(run_check(p, c), Out::Fail(k, _) if k == class)
}
fn units(part: &case::Part) -> Vec<String> {
    match part.kind {
        "gql" => match lex::lex(&part.text) {
            Ok(t) => t.iter().map(|t| part.text[t.s..t.e].to_string() + " ").collect(),
            Err(_) => part.text.chars().map(|c| c.to_string()).collect(),
        },
        "raw" => part.text.chars().map(|c| c.to_string()).collect(),
        _ => vec![],
    }
}
fn shrink(p: &Prop, c: &Case, class: &str, until: Instant) -> Case {
    let mut best = c.clone();
    let mut changed = true;
    while changed && Instant::now() < until {
        changed = false;
        for i in 0..best.parts.len() {
            let u = units(&best.parts[i]);
            if u.is_empty() {
                continue;
            }
            // first: normalised spacing
            let joined: String = u.concat();
            if joined.trim_end() != best.parts[i].text {
                let mut t = best.clone();
                t.parts[i].text = joined.trim_end().to_string();
                if fails_same(p, &t, class) {
                    best = t;
                    changed = true;
                }
            }
            let mut cur = units(&best.parts[i]);
            let mut size = (cur.len() / 2).max(1);
            loop {
                let mut k = 0;
                while k < cur.len() {
                    if Instant::now() > until {
                        return best;
                    }
                    let mut cand: Vec<String> = cur.clone();
                    cand.drain(k..(k + size).min(cand.len()));
                    let mut t = best.clone();
                    t.parts[i].text = cand.concat().trim_end().to_string();
                    if fails_same(p, &t, class) {
                        best = t;
                        cur = cand;
                        changed = true;
                    } else {
                        k += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size = if size > 4 { size / 2 } else { size - 1 };
            }
        }
    }
    best
}
struct Opts {
    seed: u64,
    secs: u64,
    max: u64,
    out: String,
    known: HashSet<String>,
    trace: String,
}
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Opts { seed: 1, secs: 10, max: u64::MAX, out: String::new(), known: HashSet::new(), trace: String::new() };
    let mut i = 3;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--seed" => o.seed = a[i + 1].parse().unwrap_or(1),
            "--secs" => o.secs = a[i + 1].parse().unwrap_or(10),
            "--max" => o.max = a[i + 1].parse().unwrap_or(u64::MAX),
            "--out" => o.out = a[i + 1].clone(),
            "--trace" => o.trace = a[i + 1].clone(),
            "--known" => {
                o.known.insert(a[i + 1].clone());
            }
            _ => {}
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file().trim_start_matches("/repo/"), l.line()));
        *PANIC_AT.lock().unwrap() = at;
    }));
    let props = props::all();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let id = j["property"].as_str().unwrap().to_string();
            let p = props.iter().find(|p| p.id == id).expect("property");
            let c = Case::from_json(&j["case"]).expect("case");
            match run_check(p, &c) {
                Out::Fail(k, d) => {
                    println!("REPRODUCED class={k}\n{d}");
                    1
                }
                Out::Ok(_) => {
                    println!("holds");
                    0
                }
                Out::Skip => {
                    println!("not applicable");
                    0
                }
            }
        }
        Some("run") => {
            let id = a[2].clone();
            let p = match props.into_iter().find(|p| p.id == id) {
                Some(p) => p,
                None => {
                    eprintln!("no such property {id}");
                    return 3;
                }
            };
            run(p, o)
        }
        Some("gen") => {
            let id = a[2].clone();
            let p = props.into_iter().find(|p| p.id == id).unwrap();
            let mut r = Rng(o.seed.wrapping_mul(0x1000193));
            for _ in 0..o.max.min(50) {
                let c = (p.gen)(&mut r);
                for x in &c.parts {
                    println!("--- {}\n{}", x.name, x.text);
                }
                println!("=========");
            }
            0
        }
        _ => {
            eprintln!("usage: run ID | replay FILE | list");
            3
        }
    }
}
fn run(p: Prop, o: Opts) -> i32 {
    let start = Instant::now();
    let until = start + Duration::from_secs(o.secs);
    let workers = 6usize;
    let p = Arc::new(p);
    let o = Arc::new(o);
    // per-worker current case, for hangs and aborts
    let cur: Arc<Vec<(AtomicU64, Mutex<Option<Case>>)>> =
        Arc::new((0..workers).map(|_| (AtomicU64::new(0), Mutex::new(None))).collect());
    let found: Arc<Mutex<Vec<(Case, String, String)>>> = Arc::new(Mutex::new(vec![]));
    let known_hits: Arc<Mutex<std::collections::BTreeMap<String, String>>> = Arc::new(Mutex::new(Default::default()));
    let evals = Arc::new(AtomicU64::new(0));
    let skips = Arc::new(AtomicU64::new(0));
    let keys: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<Case>>> = Arc::new(Mutex::new(vec![]));
    let next = Arc::new(AtomicU64::new(0));
    let fixed: Arc<Vec<Case>> = Arc::new((p.fixed)());
    let mut hs = vec![];
    for w in 0..workers {
        let (p, o, cur, found, known_hits, evals, skips, keys, samples, next, fixed) = (
            p.clone(), o.clone(), cur.clone(), found.clone(), known_hits.clone(), evals.clone(), skips.clone(),
            keys.clone(), samples.clone(), next.clone(), fixed.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || loop {
                    let n = next.fetch_add(1, Ordering::SeqCst);
                    if Instant::now() > until && n >= fixed.len() as u64 || n >= o.max || found.lock().unwrap().len() >= 3 {
                        break;
                    }
                    let c = if (n as usize) < fixed.len() {
                        fixed[n as usize].clone()
                    } else {
                        // each case has its own generator state: results do not depend on scheduling
                        let mut r = Rng(o.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ n.wrapping_mul(0xD1B54A32D192ED03));
                        r.next();
                        (p.gen)(&mut r)
                    };
                    if !o.trace.is_empty() {
                        let j = json!({"property": p.id, "case": c.json()});
                        let _ = std::fs::write(format!("{}/{w}.json", o.trace), j.to_string());
                    }
                    *cur[w].1.lock().unwrap() = Some(c.clone());
                    cur[w].0.store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                    let out = run_check(&p, &c);
                    cur[w].0.store(0, Ordering::SeqCst);
                    evals.fetch_add(1, Ordering::Relaxed);
                    match out {
                        Out::Ok(Some(k)) => {
                            use std::hash::{Hash, Hasher};
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            k.hash(&mut h);
                            keys.lock().unwrap().insert(h.finish());
                            let mut s = samples.lock().unwrap();
                            if s.len() < 3 {
                                s.push(c);
                            }
                        }
                        Out::Ok(None) => {}
                        Out::Skip => {
                            skips.fetch_add(1, Ordering::Relaxed);
                        }
                        Out::Fail(k, d) => {
                            if o.known.contains(&k) {
                                known_hits.lock().unwrap().entry(k).or_insert(d);
                            } else {
                                let mut f = found.lock().unwrap();
                                if !f.iter().any(|(_, c, _)| *c == k) {
                                    f.push((c, k, d));
                                }
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    // watchdog
    let hang = Duration::from_secs(20);
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        let now = start.elapsed().as_millis() as u64;
        for w in cur.iter() {
            let at = w.0.load(Ordering::SeqCst);
            if at != 0 && now > at && now - at > hang.as_millis() as u64 {
                let c = w.1.lock().unwrap().clone().unwrap();
                let j = json!({"property": p.id, "class": "does not terminate", "detail": "no answer within 20 s",
                    "case": c.json()});
                finish(&p, &o, &start, vec![j], &known_hits, &evals, &skips, &keys, &samples);
                std::process::exit(1);
            }
        }
    }
    for h in hs {
        let _ = h.join();
    }
    let mut js = vec![];
    for (c, k, d) in found.lock().unwrap().iter() {
        let s = shrink(&p, c, k, Instant::now() + Duration::from_secs(15));
        let d = match run_check(&p, &s) {
            Out::Fail(_, d) => d,
            _ => d.clone(),
        };
        js.push(json!({"property": p.id, "class": k, "detail": d, "case": s.json(), "original": c.json()}));
    }
    let bad = !js.is_empty();
    finish(&p, &o, &start, js, &known_hits, &evals, &skips, &keys, &samples);
    bad as i32
}
#[allow(clippy::too_many_arguments)]
fn finish(
    p: &Prop,
    o: &Opts,
    start: &Instant,
    failures: Vec<serde_json::Value>,
    known: &Mutex<std::collections::BTreeMap<String, String>>,
    evals: &AtomicU64,
    skips: &AtomicU64,
    keys: &Mutex<HashSet<u64>>,
    samples: &Mutex<Vec<Case>>,
) {
    let j = json!({
        "property": p.id, "rule": p.rule, "seed": o.seed,
        "evaluations": evals.load(Ordering::SeqCst), "skipped": skips.load(Ordering::SeqCst),
        "distinct_nontrivial": keys.lock().unwrap().len(),
        "samples": samples.lock().unwrap().iter().map(|c| c.json()).collect::<Vec<_>>(),
        "known": *known.lock().unwrap(),
        "failures": failures, "wall_s": start.elapsed().as_secs_f64(),
    });
    let t = serde_json::to_string_pretty(&j).unwrap();
    if o.out.is_empty() {
        println!("{t}");
    } else {
        let _ = std::fs::File::create(&o.out).and_then(|mut f| f.write_all(t.as_bytes()));
    }
}
fn main() {
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(101));
}
