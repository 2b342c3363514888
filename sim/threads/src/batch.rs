//! Seeded search in several processes (a process runs one simulation at a time), shrinking and replay.

use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::{json, Value};
use simcore::chooser::{Chooser, Fnv};
use simcore::deadly;
use simcore::shrink::shrink;

use crate::world::Viol;
use crate::{run_once, Outcome};

const PROPS: &[&str] = &["C07", "C14", "C19", "C11", "C22", "C16", "C21", "C17", "C26"];

fn class(v: &Viol) -> String {
    let mut s: String = v.what.chars().filter(|c| !c.is_ascii_digit()).collect();
    let cut = s.char_indices().nth(40).map(|(i, _)| i).unwrap_or(s.len());
    s.truncate(cut);
    s
}

fn hit<'a>(o: &'a Outcome, prop: &str) -> Option<&'a Viol> {
    o.viols.iter().find(|v| prop == "ANY" || v.props.iter().any(|p| *p == prop))
}

fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut f = Fnv::default();
    f.add_u64(base);
    f.add(prop.as_bytes());
    f.add_u64(i);
    f.0
}

fn bump(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    *m.entry(k.to_string()).or_insert(0) += n;
}

/// Confines this process to one CPU: only one of its threads runs at a time anyway.
fn pin(j: u64) {
    let mut mask = [0u64; 16];
    let cpu = j as usize % std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1).max(1);
    let _ = cpu;
    mask[(j as usize % 8) / 64] |= 1 << (j % 8);
    extern "C" {
        fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    }
    unsafe { sched_setaffinity(0, 128, mask.as_ptr()) };
}

pub fn main(args: &[String]) -> i32 {
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(
            &get("--prop").expect("--prop"),
            &get("--focus").unwrap_or_else(|| get("--prop").unwrap()),
            get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0),
            num("--seed", 1),
            num("--jobs", 8),
            &get("--replay-dir").unwrap_or_else(|| "/tmp/replays".into()),
            get("--out"),
        ),
        Some("worker") => worker(
            &get("--prop").unwrap(),
            &get("--focus").unwrap(),
            get("--secs").and_then(|s| s.parse().ok()).unwrap(),
            num("--seed", 1),
            num("--job", 0),
            num("--jobs", 1),
            args.iter().any(|a| a == "--all"),
        ),
        Some("replay") => replay(&args[2], args.iter().any(|a| a == "--quiet")),
        Some("fingerprints") => {
            let (n, from) = (num("--runs", 100), num("--from", 0));
            let jobs = num("--jobs", 1);
            if let Some(j) = get("--job") {
                let j: u64 = j.parse().unwrap();
                pin(j);
                for i in (from..from + n).filter(|i| i % jobs == j) {
                    let o = run_once(PROPS[i as usize % PROPS.len()], Chooser::seeded(i), false);
                    println!("{i} {:016x} {}", o.fp, o.log.len());
                }
                return 0;
            }
            let kids: Vec<_> = (0..jobs)
                .map(|j| {
                    Command::new(std::env::current_exe().unwrap())
                        .args(["fingerprints", "--runs", &n.to_string(), "--from", &from.to_string(), "--jobs", &jobs.to_string(), "--job", &j.to_string()])
                        .stdout(Stdio::piped())
                        .spawn()
                        .unwrap()
                })
                .collect();
            let mut l: Vec<(u64, String)> = vec![];
            for k in kids {
                let o = k.wait_with_output().unwrap();
                for x in String::from_utf8(o.stdout).unwrap().lines() {
                    l.push((x.split(' ').next().unwrap().parse().unwrap(), x.to_string()));
                }
            }
            l.sort();
            for x in l {
                println!("{}", x.1);
            }
            0
        }
        Some("survey") => check("SURVEY", &get("--focus").unwrap_or_default(), get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0), num("--seed", 1), num("--jobs", 8), "/tmp", None),
        // The choices in the file TL_CHOICES.
        Some("raw") => {
            let list = deadly::read_choices(std::path::Path::new(&std::env::var_os("TL_CHOICES").expect("TL_CHOICES")));
            pin(0);
            run_once(&get("--focus").unwrap_or_default(), Chooser::replay(list), false);
            0
        }
        Some("one") => {
            let o = run_once(&get("--focus").unwrap_or_default(), Chooser::seeded(num("--seed", 1)), true);
            for l in &o.trace {
                println!("{l}");
            }
            for v in &o.viols {
                println!("{:?} {}", v.props, v.what);
            }
            println!("{} points, {} choices, {:?} {:?}", o.steps, o.log.len(), o.summary, o.harness);
            0
        }
        _ => {
            eprintln!("usage: tlthreads check|replay|fingerprints|survey|one …");
            2
        }
    }
}

/// Runs its share of the seeds and reports on stdout: `progress` lines, then `found` or `stats`.
fn worker(prop: &str, focus: &str, secs: f64, base: u64, job: u64, jobs: u64, all: bool) -> i32 {
    pin(job);
    let t0 = Instant::now();
    let (mut runs, mut steps, mut polls, mut events, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut faults = BTreeMap::new();
    let mut fault_runs = BTreeMap::new();
    let mut probes = BTreeMap::new();
    let mut other = BTreeMap::new();
    let mut fps: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut found = Value::Null;
    let mut classes: BTreeMap<String, (u64, u64, String, usize)> = BTreeMap::new();
    let mut i = job;
    while t0.elapsed().as_secs_f64() < secs {
        let seed = seed_of(base, prop, i);
        let f = if all && focus.is_empty() { PROPS[(i / jobs) as usize % PROPS.len()] } else { focus };
        println!("run {seed} {f}");
        let o = run_once(f, Chooser::seeded(seed), false);
        runs += 1;
        steps += o.steps;
        polls += o.polls;
        events += o.events;
        for (k, n) in &o.faults {
            bump(&mut faults, k, *n);
            bump(&mut fault_runs, k, 1);
        }
        for (k, n) in &o.probes {
            bump(&mut probes, k, *n);
        }
        if o.nontrivial {
            nontrivial += 1;
            fps.insert(o.fp);
            if samples.len() < 2 {
                samples.push(json!({"seed": seed, "summary": o.summary, "faults": o.faults, "choices": o.log.iter().take(60).collect::<Vec<_>>()}));
            }
        }
        for v in &o.viols {
            for p in &v.props {
                bump(&mut other, p, 1);
            }
        }
        if let Some(h) = &o.harness {
            println!("harness {}", json!({"seed": seed, "focus": f, "what": h}));
            return 2;
        }
        if all {
            if let Some(v) = o.viols.first() {
                let e = classes.entry(class(v)).or_insert((0, seed, format!("--focus {f} {:?} {}", v.props, v.what), usize::MAX));
                e.0 += 1;
                if o.log.len() < e.3 {
                    *e = (e.0, seed, format!("--focus {f} {:?} {}", v.props, v.what), o.log.len());
                }
            }
        } else if hit(&o, prop).is_some() {
            found = json!({"i": i, "seed": seed, "log": o.log});
            break;
        }
        i += jobs;
    }
    let mut out = std::io::stdout().lock();
    writeln!(
        out,
        "stats {}",
        json!({
            "runs": runs, "steps": steps, "polls": polls, "events": events, "nontrivial": nontrivial, "distinct": fps.len(),
            "faults": faults, "fault_runs": fault_runs, "probes": probes, "other": other, "samples": samples, "found": found,
            "classes": classes,
        })
    )
    .unwrap();
    0
}

fn add(m: &mut BTreeMap<String, u64>, v: &Value) {
    for (k, n) in v.as_object().unwrap() {
        bump(m, k, n.as_u64().unwrap());
    }
}

fn check(prop: &str, focus: &str, secs: f64, base: u64, jobs: u64, replay_dir: &str, out: Option<String>) -> i32 {
    let t0 = Instant::now();
    let survey = prop == "SURVEY";
    println!("seed {base} scenario threads focus {focus} runtime agnostic");
    let results: std::sync::Mutex<Vec<(Vec<String>, bool)>> = Default::default();
    let kids: std::sync::Mutex<Vec<std::process::Child>> = Default::default();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let left = std::sync::atomic::AtomicU64::new(jobs);
    use std::sync::atomic::Ordering::SeqCst;
    std::thread::scope(|s| {
        for j in 0..jobs {
            let mut c = Command::new(std::env::current_exe().unwrap());
            c.args(["worker", "--prop", prop, "--focus", focus, "--secs", &secs.to_string(), "--seed", &base.to_string(), "--job", &j.to_string(), "--jobs", &jobs.to_string()]);
            if survey {
                c.arg("--all");
            }
            let mut kid = c.stdout(Stdio::piped()).spawn().expect("worker");
            let so = kid.stdout.take().unwrap();
            kids.lock().unwrap().push(kid);
            let (results, left, stop) = (&results, &left, &stop);
            s.spawn(move || {
                let mut last = String::new();
                let mut keep = vec![];
                let mut complete = false;
                for l in BufReader::new(so).lines().map_while(Result::ok) {
                    if l.starts_with("run ") {
                        last = l;
                    } else {
                        if l.starts_with("harness") || (l.starts_with("stats") && !l.contains("\"found\":null")) {
                            stop.store(true, SeqCst);
                        }
                        complete = true;
                        keep.push(l);
                    }
                }
                keep.push(last);
                results.lock().unwrap().push((keep, complete));
                left.fetch_sub(1, SeqCst);
            });
        }
        // The watchdog: a violation ends the search, a worker that does not answer is an error.
        let mut since: Option<Instant> = None;
        while left.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            if stop.load(SeqCst) && since.is_none() {
                since = Some(Instant::now());
            }
            let over = t0.elapsed().as_secs_f64() > secs + 25.0;
            if over || since.map_or(false, |t| t.elapsed() > Duration::from_millis(1500)) {
                for k in kids.lock().unwrap().iter_mut() {
                    let _ = k.kill();
                }
            }
        }
        for k in kids.lock().unwrap().iter_mut() {
            let _ = k.wait();
        }
    });
    let wall = t0.elapsed().as_secs_f64();
    let results = results.into_inner().unwrap();
    let stopped = stop.load(SeqCst);
    let mut t: BTreeMap<&str, u64> = BTreeMap::new();
    let (mut faults, mut fault_runs, mut probes, mut other) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    let mut samples = vec![];
    let mut found: Option<Value> = None;
    let mut classes: BTreeMap<String, (u64, Value)> = BTreeMap::new();
    let mut dead: Vec<u64> = vec![];
    for (l, complete) in &results {
        for x in l {
            if let Some(h) = x.strip_prefix("harness ") {
                eprintln!("harness error: {h}");
                return 2;
            }
            if let Some(s) = x.strip_prefix("stats ") {
                let v: Value = serde_json::from_str(s).unwrap();
                for k in ["runs", "steps", "polls", "events", "nontrivial", "distinct"] {
                    *t.entry(k).or_insert(0) += v[k].as_u64().unwrap();
                }
                add(&mut faults, &v["faults"]);
                add(&mut fault_runs, &v["fault_runs"]);
                add(&mut probes, &v["probes"]);
                add(&mut other, &v["other"]);
                samples.extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
                if !v["found"].is_null() && found.as_ref().map_or(true, |f| v["found"]["i"].as_u64() < f["i"].as_u64()) {
                    found = Some(v["found"].clone());
                }
                for (k, c) in v["classes"].as_object().unwrap() {
                    let e = classes.entry(k.clone()).or_insert((0, c.clone()));
                    e.0 += c[0].as_u64().unwrap();
                    if c[3].as_u64() < e.1[3].as_u64() {
                        e.1 = c.clone();
                    }
                }
            }
        }
        if !complete && !stopped {
            dead.extend(l.last().and_then(|l| l.split(' ').nth(1)).and_then(|s| s.parse::<u64>().ok()));
        }
    }
    if survey {
        let mut v: Vec<_> = classes.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
        for (_, (n, c)) in v {
            println!("{n:>6}x --seed {} (len {}) {}", c[1], c[3], c[2].as_str().unwrap());
        }
        println!("{t:?} in {wall:.1} s; faults {faults:?}; probes {probes:?}");
        return 0;
    }
    let mut code = 0;
    let mut violation = Value::Null;
    if !dead.is_empty() && found.is_none() {
        println!("workers have died; runs in progress: {dead:?}");
        std::fs::create_dir_all(replay_dir).unwrap();
        let of = |k: &str| -> Vec<String> { [k, "--focus", focus].iter().map(|s| s.to_string()).collect() };
        let one = |seed: u64| {
            let mut v = of("one");
            v.extend(["--seed".into(), seed.to_string()]);
            v
        };
        let file = std::path::Path::new(replay_dir).join(format!("{prop}-threads-{}.choices", std::process::id()));
        let Some(f) = deadly::find(&dead, one, &of("raw"), &file, Duration::from_secs(8), Duration::from_millis(1000)) else {
            eprintln!("harness error: workers ended without a report, but none of their last runs does");
            return 2;
        };
        println!("minimised {} choices to {} in {} runs", f.of, f.choices.len(), f.tries);
        let path = format!("{replay_dir}/{prop}-threads-agnostic-{:016x}.json", f.seed);
        let file = json!({
            "property": prop, "scenario": "threads", "focus": focus, "runtime": "agnostic", "seed": f.seed, "batch_seed": base,
            "violation": f.death.to_string(), "properties": [prop], "deadly": true, "choices": f.choices,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
        println!("{}", f.death);
        println!("VIOLATION property={prop} replay={path}");
        violation = json!({"seed": f.seed, "what": f.death.to_string(), "replay": path, "shrink_runs": f.tries});
        code = 1;
    }
    if let Some(f) = found {
        let seed = f["seed"].as_u64().unwrap();
        let log: Vec<u32> = f["log"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        pin(0);
        let o = run_once(focus, Chooser::replay(log.clone()), false);
        let Some(first) = hit(&o, prop).cloned() else {
            eprintln!("harness error: seed {seed} does not reproduce");
            return 2;
        };
        let cls = class(&first);
        println!("seed {seed} violates {prop}: {}", first.what);
        let is = |o: &Outcome| o.viols.iter().any(|v| v.props.iter().any(|p| *p == prop) && class(v) == cls);
        let t1 = Instant::now();
        let mut stuck = 0;
        let (min, tries) = shrink(log.clone(), Duration::from_secs(12), |l| {
            // Runs that end in a deadlock leave their threads behind; do not collect too many.
            if stuck > 1500 || t1.elapsed() > Duration::from_secs(14) {
                return None;
            }
            let o2 = run_once(focus, Chooser::replay(l.to_vec()), false);
            if o2.viols.iter().any(|v| v.what.starts_with("deadlock") || v.what.starts_with("no end") || v.what.starts_with("panic")) {
                stuck += 1;
            }
            is(&o2).then_some(o2.log)
        });
        println!("minimised {} choices to {} in {tries} runs", log.len(), min.len());
        let of = run_once(focus, Chooser::replay(min.clone()), true);
        let v = of.viols.iter().find(|v| v.props.iter().any(|p| *p == prop) && class(v) == cls).or_else(|| hit(&of, prop)).cloned().unwrap_or(first);
        std::fs::create_dir_all(replay_dir).unwrap();
        let path = format!("{replay_dir}/{prop}-threads-agnostic-{seed:016x}.json");
        let file = json!({
            "property": prop, "scenario": "threads", "focus": focus, "runtime": "agnostic",
            "seed": seed, "batch_seed": base, "violation": v.what, "properties": v.props,
            "fingerprint": format!("{:016x}", of.fp), "faults": of.faults,
            "choices": min, "trace": of.trace,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
        let st = Command::new(std::env::current_exe().unwrap()).args(["replay", &path, "--quiet"]).status().unwrap();
        if st.code() != Some(1) {
            eprintln!("harness error: replay of {path} did not reproduce the violation (status {st})");
            return 2;
        }
        println!("{}", v.what);
        println!("VIOLATION property={prop} replay={path}");
        violation = json!({"seed": seed, "what": v.what, "replay": path, "shrink_runs": tries});
        code = 1;
    }
    let g = |k: &str| t.get(k).copied().unwrap_or(0);
    let rep = json!({
        "scenario": "threads", "focus": focus, "runtime": "agnostic",
        "runs": g("runs"), "nontrivial_runs": g("nontrivial"), "distinct_interleavings": g("distinct"),
        "steps": g("steps"), "polls": g("polls"), "events": g("events"),
        "faults_injected": faults, "runs_with_fault": fault_runs, "reach_probes": probes,
        "violations_by_property": other, "samples": samples.iter().take(3).collect::<Vec<_>>(),
        "wall_s": wall, "runs_per_hour": (g("runs") as f64 / wall.max(0.001) * 3600.0) as u64, "violation": violation,
    });
    println!("{} runs, {} distinct non-trivial, {} scheduling points in {wall:.1}s; violations seen by property: {other:?}", g("runs"), g("distinct"), g("steps"));
    if let Some(p) = out {
        std::fs::write(p, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    }
    code
}

fn replay(path: &str, quiet: bool) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap().to_string();
    if v["deadly"] == true {
        let list: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let file = std::env::temp_dir().join(format!("tl-{}.choices", std::process::id()));
        deadly::write_choices(&file, &list);
        std::env::set_var("TL_CHOICES", &file);
        let args: Vec<String> = ["raw", "--focus", v["focus"].as_str().unwrap()].iter().map(|s| s.to_string()).collect();
        let d = deadly::probe(&args, Duration::from_secs(8));
        let _ = std::fs::remove_file(&file);
        if !quiet {
            match d {
                Some(d) => println!("{d}\nVIOLATION property={prop} replay={path}"),
                None => println!("no violation of {prop}"),
            }
        }
        return d.is_some() as i32;
    }
    let list: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let o = run_once(v["focus"].as_str().unwrap(), Chooser::replay(list), true);
    if !quiet {
        for l in &o.trace {
            println!("{l}");
        }
    }
    if let Some(h) = o.harness {
        eprintln!("harness error: {h}");
        return 2;
    }
    match hit(&o, &prop) {
        Some(x) => {
            let same = v["fingerprint"].as_str() == Some(&format!("{:016x}", o.fp));
            if !quiet {
                println!("{}\nVIOLATION property={prop} replay={path}{}", x.what, if same { "" } else { " (different execution: the code has changed)" });
            }
            1
        }
        None => {
            if !quiet {
                println!("no violation of {prop}");
            }
            0
        }
    }
}
