//! Deterministic in-process simulator of the MiTeX library and plugin.
//!
//! simrs check <property> --seed S --runs N --secs T --workers W --out FILE --replay-dir DIR
//! simrs replay FILE
//! simrs log <property> --seed S --runs N --workers W      (event log digest, for determinism checks)
mod exec;
mod gen;
mod rng;
mod rt;
mod scenario;
mod workload;

use rt::End;
use scenario::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;

fn run_forked(s: &Scenario) -> Value {
    let (out, end) = rt::in_process(120, |fd| {
        let v = exec::run_scenario(s);
        rt::write_all(fd, v.to_string().as_bytes());
        rt::exit_now(0);
    });
    match (serde_json::from_slice::<Value>(&out), &end) {
        (Ok(v), End::Exit(0)) => v,
        _ => json!({"harness": format!("{end:?}")}),
    }
}

fn run_seed(base: u64, i: u64) -> u64 {
    rng::Rng::new(base.wrapping_mul(1_000_003).wrapping_add(i)).next() >> 1
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|x| x == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}

fn class_of(v: &Value) -> String {
    let x = &v["violation"];
    let got = x["got"].as_str().unwrap_or("");
    format!("{}|{}", x["what"].as_str().unwrap_or(""), got.split(':').next().unwrap_or(""))
}

fn with_segments(s: &Scenario, v: &Value) -> Option<Scenario> {
    let mut n = s.clone();
    let seg: Vec<(u64, u64)> = v["segments"].as_array()?.iter().map(|p| (p[0].as_u64().unwrap_or(0), p[1].as_u64().unwrap_or(1))).collect();
    n.sched.segments = Some(seg);
    Some(n)
}

/// Shrinks a failing scenario while the same kind of violation persists.
fn minimise(s0: &Scenario, v0: &Value, secs: u64) -> (Scenario, Value, u64) {
    let t0 = Instant::now();
    let class = class_of(v0);
    let mut trials = 0u64;
    let mut best = s0.clone();
    let mut bestv = v0.clone();
    let alive = |t: &Instant| t.elapsed().as_secs() < secs;
    let mut try_it = |c: &Scenario, tries: u64| -> Option<(Scenario, Value)> {
        for k in 0..tries {
            let mut c = c.clone();
            if k > 0 {
                c.sched.seed = c.sched.seed.wrapping_add(k * 7919) >> 1;
            }
            trials += 1;
            let v = run_forked(&c);
            if v.get("violation").is_some() && class_of(&v) == class {
                return Some((c, v));
            }
        }
        None
    };
    let tries = if s0.threads.len() > 1 { 6 } else { 1 };
    let mut progress = true;
    while progress && alive(&t0) {
        progress = false;
        let mut t = 0;
        while t < best.threads.len() && best.threads.len() > 1 && alive(&t0) {
            let mut c = best.clone();
            c.threads.remove(t);
            if let Some((c, v)) = try_it(&c, tries) {
                best = c;
                bestv = v;
                progress = true;
            } else {
                t += 1;
            }
        }
        for t in 0..best.threads.len() {
            let mut i = 0;
            while i < best.threads[t].len() && alive(&t0) {
                let mut c = best.clone();
                c.threads[t].remove(i);
                if let Some((c, v)) = try_it(&c, tries) {
                    best = c;
                    bestv = v;
                    progress = true;
                } else {
                    i += 1;
                }
            }
        }
        for t in 0..best.threads.len() {
            for i in 0..best.threads[t].len() {
                // plainer operations
                for f in 0..4 {
                    let mut c = best.clone();
                    let o = &mut c.threads[t][i];
                    let before = o.clone();
                    match f {
                        0 => o.cancel = 0,
                        1 => o.pace = Pace::default(),
                        2 => o.align = 0,
                        _ => o.spec = if o.damage.kind == 0 && o.kind != "load" && o.kind != "shared" { -1 } else { o.spec },
                    }
                    if *o != before && alive(&t0) {
                        if let Some((c, v)) = try_it(&c, tries) {
                            best = c;
                            bestv = v;
                        }
                    }
                }
                // fewer repetitions
                let mut step = best.threads[t][i].times / 2;
                while step >= 1 && alive(&t0) {
                    let mut c = best.clone();
                    c.threads[t][i].times -= step;
                    match try_it(&c, 1) {
                        Some((c, v)) => {
                            best = c;
                            bestv = v;
                            step = step.min(best.threads[t][i].times / 2);
                        }
                        None => step /= 2,
                    }
                }
                if best.threads[t][i].same_as.is_some() || best.threads[t][i].kind == "cspec" {
                    continue;
                }
                // shorter documents
                let mut size = best.threads[t][i].doc.chars().count() / 2;
                while size >= 1 && alive(&t0) {
                    let mut at = 0;
                    loop {
                        let cs: Vec<char> = best.threads[t][i].doc.chars().collect();
                        if at >= cs.len() || !alive(&t0) {
                            break;
                        }
                        let old = best.threads[t][i].doc.clone();
                        let new: String = cs[..at].iter().chain(&cs[(at + size).min(cs.len())..]).collect();
                        let mut c = best.clone();
                        for th in &mut c.threads {
                            for o in th {
                                if o.doc == old {
                                    o.doc = new.clone();
                                }
                            }
                        }
                        if let Some((c, v)) = try_it(&c, tries.min(3)) {
                            best = c;
                            bestv = v;
                            progress = true;
                        } else {
                            at += size;
                        }
                    }
                    size /= 2;
                }
            }
        }
        if best.threads.len() > 12 {
            break;
        }
    }
    // the schedule itself
    if let Some(c) = with_segments(&best, &bestv) {
        if let Some((c, v)) = try_it(&c, 1) {
            best = c;
            bestv = v;
            let mut size = best.sched.segments.as_ref().map_or(0, |s| s.len()) / 2;
            while size >= 1 && alive(&t0) {
                let mut at = 0;
                loop {
                    let seg = best.sched.segments.clone().unwrap_or_default();
                    if at >= seg.len() || !alive(&t0) {
                        break;
                    }
                    let mut n = seg[..at].to_vec();
                    n.extend_from_slice(&seg[(at + size).min(seg.len())..]);
                    let mut c = best.clone();
                    c.sched.segments = Some(n);
                    if let Some((c, v)) = try_it(&c, 1) {
                        best = c;
                        bestv = v;
                    } else {
                        at += size;
                    }
                }
                size /= 2;
            }
        }
    }
    (best, bestv, trials)
}

fn write_replay(dir: &str, property: &str, s: &Scenario, v: &Value, run: u64, seed: u64) -> String {
    let _ = std::fs::create_dir_all(dir);
    let mut viol = v["violation"].clone();
    if let Some(o) = viol.as_object_mut() {
        o.remove("segments");
    }
    let doc = json!({"simulator": "simrs", "property": property, "seed": run_seed(seed, run).to_string(), "run": run,
        "violation": viol, "scenario": s.to_json()});
    let path = format!("{dir}/{property}-{seed}-{run}.json");
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay file");
    path
}

fn main() {
    let args = Args(std::env::args().collect());
    let mode = args.0.get(1).cloned().unwrap_or_default();
    unsafe { rt::simrt_share() };
    if mode == "replay" {
        let f = std::fs::read_to_string(&args.0[2]).expect("read replay file");
        let v: Value = serde_json::from_str(&f).expect("parse replay file");
        let s = Scenario::from_json(&v["scenario"]);
        let r = run_forked(&s);
        println!("{}", serde_json::to_string_pretty(&r["violation"]).unwrap());
        if r.get("violation").is_some() {
            println!("VIOLATION property={} replay={}", s.property, args.0[2]);
            std::process::exit(1);
        }
        println!("not reproduced: {r}");
        std::process::exit(if r.get("ok").is_some() { 0 } else { 3 });
    }
    let property = args.0.get(2).cloned().unwrap_or_default();
    let seed = args.num("--seed", 1);
    let runs = args.num("--runs", 1000);
    let secs = args.num("--secs", 60);
    let workers = args.num("--workers", 8);
    let t0 = Instant::now();
    let vocab = workload::vocabulary(exec::default_items());
    if vocab.items.len() < 50 {
        eprintln!("simrs: the default specification could not be read");
        std::process::exit(3);
    }
    if let Some(i) = args.get("--run").and_then(|x| x.parse::<u64>().ok()) {
        let s = workload::generate(&property, run_seed(seed, i), &vocab);
        println!("{}", serde_json::to_string_pretty(&s.to_json()).unwrap());
        println!("{}", run_forked(&s));
        return;
    }
    if mode == "errs" {
        exec::install();
        // which errors the error-free documents run into (to tune the generator)
        let mut m: BTreeMap<String, (u64, String)> = BTreeMap::new();
        for i in 0..runs {
            let mut r = rng::Rng::new(seed * 1000 + i);
            let math = r.chance(1, 2);
            let n = r.range(3, 30) as i64;
            let mut g = gen::Gen::new(r.fork(), &vocab);
            let d = g.doc(math, true, false, n, &[]);
            let d2 = d.clone();
            let (out, end) = rt::in_process(2, |fd| {
                let r = if math { mitex::convert_math(&d2, None) } else { mitex::convert_text(&d2, None) };
                rt::write_all(fd, match r { Ok(_) => "ok".to_string(), Err(e) => e }.as_bytes());
            });
            let k = format!("{} {end:?}", String::from_utf8_lossy(&out).chars().take(60).collect::<String>());
            let e = m.entry(k).or_insert((0, d.clone()));
            e.0 += 1;
            if d.len() < e.1.len() { e.1 = d; }
        }
        let mut v: Vec<_> = m.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
        for (k, (n, d)) in v.into_iter().take(25) {
            println!("{n:5} {k}\n      {d:?}");
        }
        return;
    }
    let log_mode = mode == "log";
    let slow = args.get("--slow").is_some();

    // workers are forked before this process starts any thread
    let mut pipes = vec![];
    for w in 0..workers {
        let (pid, fd) = rt::spawn_process(|fd| {
            unsafe { rt::simrt_share() };
            let mut i = w;
            while i < runs && t0.elapsed().as_secs() < secs {
                let s = workload::generate(&property, run_seed(seed, i), &vocab);
                let t1 = Instant::now();
                let mut v = run_forked(&s);
                v["run"] = json!(i);
                v["ms"] = json!(t1.elapsed().as_millis() as u64);
                if v.get("violation").is_some() {
                    v["scenario"] = s.to_json();
                    // a verdict must be exactly repeatable before it is believed
                    let again = run_forked(&s);
                    v["repeats"] = json!(again.get("violation").is_some() && class_of(&again) == class_of(&v));
                }
                let mut line = v.to_string();
                line.push('\n');
                rt::write_all(fd, line.as_bytes());
                if v.get("violation").is_some() && !log_mode {
                    break;
                }
                i += workers;
            }
        });
        pipes.push((pid, fd));
    }
    let handles: Vec<_> = pipes
        .into_iter()
        .map(|(pid, fd)| {
            std::thread::spawn(move || {
                let mut all = Vec::new();
                let mut buf = vec![0u8; 65536];
                loop {
                    let n = rt::read_some(fd, &mut buf);
                    if n == 0 {
                        break;
                    }
                    all.extend_from_slice(&buf[..n]);
                }
                (rt::wait_process(pid), String::from_utf8_lossy(&all).to_string())
            })
        })
        .collect();
    let mut recs: BTreeMap<u64, Value> = BTreeMap::new();
    let mut harness_errors = vec![];
    for h in handles {
        let (end, text) = h.join().expect("reader");
        if end != End::Exit(0) {
            harness_errors.push(format!("worker {end:?}"));
        }
        for l in text.lines() {
            match serde_json::from_str::<Value>(l) {
                Ok(v) => {
                    recs.insert(v["run"].as_u64().unwrap_or(0), v);
                }
                Err(e) => harness_errors.push(format!("record: {e}")),
            }
        }
    }
    if log_mode {
        for (i, v) in &recs {
            println!("{i} {} {} {} {} {}", v["hash"], v["events"], v["counters"], v["classes"], v["violation"]);
        }
        return;
    }

    let mut distinct: HashSet<String> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut counters = [0u64; 11];
    let (mut ops, mut skipped, mut cancelled, mut refills, mut events, mut sim_ns, mut segs, mut refs) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut damage: BTreeMap<String, u64> = BTreeMap::new();
    let mut threads_hist: BTreeMap<usize, u64> = BTreeMap::new();
    let mut cold = 0u64;
    let mut nontrivial = 0u64;
    let mut samples = vec![];
    let mut violations = vec![];
    for (i, v) in &recs {
        if let Some(h) = v.get("harness") {
            harness_errors.push(format!("run {i}: {h}"));
            continue;
        }
        if v.get("violation").is_some() {
            violations.push((*i, v.clone()));
            continue;
        }
        let s = workload::generate(&property, run_seed(seed, *i), &vocab);
        let u = |k: &str| v[k].as_u64().unwrap_or(0);
        if slow && u("ms") > 1000 {
            eprintln!("slow run {i}: {} ms, skipped {}", u("ms"), u("skipped"));
        }
        ops += u("ops");
        skipped += u("skipped");
        cancelled += u("cancelled");
        refills += u("refills");
        events += u("events");
        sim_ns += u("sim_ns");
        segs += u("segs");
        refs += u("refs");
        for (k, c) in counters.iter_mut().enumerate() {
            *c += v["counters"][k].as_u64().unwrap_or(0);
        }
        if let Some(m) = v["classes"].as_object() {
            for (k, n) in m {
                *classes.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
        }
        *threads_hist.entry(s.threads.len()).or_default() += 1;
        if !s.warm {
            cold += 1;
        }
        for o in s.threads.iter().flatten() {
            if o.damage.kind > 0 {
                let n = ["", "bit_flips", "truncated", "zeroed_range", "torn_write", "trailing_bytes", "duplicated_sector"][o.damage.kind as usize];
                *damage.entry(n.into()).or_default() += 1;
            }
        }
        // what a distinct, non-trivial execution is depends on the property
        let fault = u("cancelled") > 0 || s.threads.iter().flatten().any(|o| o.damage.kind > 0 || o.pace.mode > 0 || o.align > 0);
        let interesting = match property.as_str() {
            "C01" => u("segs") > s.threads.len() as u64 && u("ops") > 1,
            _ => fault && u("ops") > 1,
        };
        if interesting {
            nontrivial += 1;
            let body: u64 = s.to_json()["threads"].to_string().bytes().fold(1469598103934665603, |h: u64, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            distinct.insert(format!("{}-{body:x}", v["hash"]));
        }
        if samples.len() < 2 && interesting && *i > 3 {
            let mut sj = s.to_json();
            sj["specs"] = json!(s.specs.len());
            samples.push(json!({"run": i, "seed": run_seed(seed, *i).to_string(), "scenario": sj, "outcome": v}));
        }
    }
    let sim_wall = t0.elapsed().as_secs_f64();

    let mut lines = vec![];
    if !harness_errors.is_empty() {
        for e in harness_errors.iter().take(5) {
            eprintln!("simrs: {e}");
        }
    }
    let mut min_trials = 0;
    for (i, v) in violations.iter().take(1) {
        if v["repeats"] != json!(true) {
            eprintln!("simrs: run {i} did not repeat: {}", v["violation"]);
            harness_errors.push(format!("run {i} did not repeat"));
            continue;
        }
        let s = Scenario::from_json(&v["scenario"]);
        let (m, mv, n) = minimise(&s, v, args.num("--min-secs", 60));
        min_trials += n;
        let dir = args.get("--replay-dir").unwrap_or("/verif/replays");
        let path = write_replay(dir, &property, &m, &mv, *i, seed);
        println!("violation: {}", mv["violation"]);
        lines.push(format!("VIOLATION property={property} replay={path}"));
    }
    let hours = sim_wall / 3600.0;
    let done = recs.len() as u64;
    let ev = json!({
        "evaluations": done,
        "distinct_nontrivial": distinct.len(),
        "nontrivial_runs": nontrivial,
        "rule": match property.as_str() {
            "C01" => "a run is one seed: 2 to 6 simulated threads issue conversions and specification calls, preempted at instrumented memory accesses; it counts as non-trivial when it had more segments than threads and more than one call, and as distinct by the hash of its (thread, events) segment sequence together with its calls",
            _ => "a run is one seed: a history of calls by one or more simulated threads; it counts as non-trivial when at least one fault or perturbation (interruption, damaged or misplaced bytes, forced refill size) took part and more than one call was made, and as distinct by its segment hash together with its calls",
        },
        "samples": samples,
        "runs_per_hour": (done as f64 / hours) as u64,
        "seeds_per_hour": (done as f64 / hours) as u64,
        "simulated_events": events,
        "simulated_seconds": sim_ns as f64 / 1e9,
        "segments": segs,
        "calls_checked": ops,
        "calls_skipped": skipped,
        "reference_processes": refs,
        "call_outcomes": classes,
        "runs_with_cold_statics": cold,
        "threads_per_run": threads_hist.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>(),
        "faults": {
            "preemptions": counters[0], "stalled_threads": counters[1], "spurious_wakeups": counters[2],
            "blocked_on_futex": counters[3], "futex_wakes": counters[4], "timeouts": counters[9], "switches_at_synchronisation": counters[10],
            "randomised_hash_seeds": counters[8], "calls_interrupted_by_unwinding": cancelled,
            "forced_refills": refills, "stored_spec_damage": damage,
        },
        "minimisation_trials": min_trials,
        "real_components": ["mitex", "mitex-parser", "mitex-lexer", "mitex-glob", "mitex-spec", "mitex-spec-gen", "mitex-wasm (source, host target)", "rkyv", "rowan", "serde_json", "std"],
        "stub_components": ["thread scheduler, futex, clock, sleep, randomness (simulated)", "global allocator (deterministic arena)", "wasm plugin protocol attributes (no-ops)"],
        "harness_errors": harness_errors.len(),
    });
    let out = args.get("--out").unwrap_or("/dev/stdout");
    std::fs::write(out, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence part");
    for l in &lines {
        println!("{l}");
    }
    if !lines.is_empty() {
        std::process::exit(1);
    }
    if !harness_errors.is_empty() {
        std::process::exit(3);
    }
    println!("ok: {done} runs, {} distinct non-trivial, {ops} calls checked, {:.1} s", distinct.len(), sim_wall);
}
