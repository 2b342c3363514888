//! Seeded search over many runs, shrinking, replay files and the statistics of a batch.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};
use simcore::chooser::{Chooser, Fnv};
use simcore::deadly::{self, Slots};
use simcore::shrink::shrink;

use crate::methods::MethodInfo;
use crate::world::{Viol, World};

#[derive(Default)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub log: Vec<u32>,
    pub fp: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub steps: u64,
    pub polls: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub harness: Option<String>,
    pub summary: Value,
}

impl Outcome {
    pub fn from_world(mut w: World, steps: u64, harness: Option<String>) -> Outcome {
        w.fp.add_u64(w.viols.len() as u64);
        let summary = json!({
            "client_messages": w.msgs.len(),
            "handlers_started": w.invs.len(),
            "responses": w.resps.len(),
            "client_requests_by_server": w.calls.len(),
            "client_notifications_by_server": w.ntfs.len(),
            "max_concurrent_handlers": w.max_active,
            "level": w.cfg.level,
            "polls": w.poll_no,
            "events": w.seq,
        });
        for k in ["server_calls", "server_notifications"] {
            let n = if k == "server_calls" { w.calls.len() } else { w.ntfs.len() };
            if n > 0 {
                *w.probes.entry(k).or_insert(0) += n as u64;
            }
        }
        for (k, n) in [
            ("handlers_started", w.invs.len()),
            ("handlers_dropped", w.invs.iter().filter(|v| v.end == crate::world::End::Dropped).count()),
            ("responses", w.resps.len()),
            ("idle_points", w.idles.len()),
        ] {
            if n > 0 {
                *w.probes.entry(k).or_insert(0) += n as u64;
            }
        }
        Outcome {
            viols: w.viols,
            log: w.ch.log,
            fp: w.fp.0,
            faults: w.faults,
            probes: w.probes,
            trace: w.trace.unwrap_or_default(),
            steps,
            polls: w.poll_no,
            events: w.seq,
            nontrivial: w.invs.len() >= 2 && w.resps.len() >= 2,
            harness,
            summary,
        }
    }
}

pub type Scenario = fn(&'static str, Chooser, bool, &'static [MethodInfo]) -> Outcome;

/// Runs once, in a fresh thread so that per-thread hash seeds start from the same state.
pub fn run_once(sc: Scenario, focus: &'static str, ch: Chooser, trace: bool, table: &'static [MethodInfo]) -> Outcome {
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || sc(focus, ch, trace, table))
        .expect("harness: thread")
        .join()
        .unwrap_or_else(|_| Outcome { harness: Some("harness: session thread panicked".into()), ..Default::default() })
}

/// The class of a violation: its text without numbers.
pub fn class(v: &Viol) -> String {
    let mut s: String = v.what.chars().filter(|c| !c.is_ascii_digit()).collect();
    let cut = s.char_indices().nth(48).map(|(i, _)| i).unwrap_or(s.len());
    s.truncate(cut);
    s
}

fn hit<'a>(o: &'a Outcome, prop: &str) -> Option<&'a Viol> {
    o.viols.iter().find(|v| prop == "ANY" || v.props.iter().any(|p| *p == prop))
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut f = Fnv::default();
    f.add_u64(base);
    f.add(prop.as_bytes());
    f.add_u64(i);
    f.0
}

pub struct Batch {
    pub prop: String,
    pub focus: &'static str,
    pub scenario: &'static str,
    pub seed: u64,
    pub secs: f64,
    pub max_runs: u64,
    pub jobs: usize,
    pub replay_dir: String,
    pub out: Option<String>,
    pub runtime: &'static str,
    /// Where the runs in progress are noted for the supervisor.
    pub slots: Option<String>,
}

#[derive(Default)]
struct Stats {
    runs: u64,
    steps: u64,
    polls: u64,
    events: u64,
    nontrivial: u64,
    faults: BTreeMap<&'static str, u64>,
    fault_runs: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    fps: HashSet<u64>,
    samples: Vec<Value>,
    other: BTreeMap<String, u64>,
}

impl Stats {
    fn add(&mut self, seed: u64, o: &Outcome) {
        self.runs += 1;
        self.steps += o.steps;
        self.polls += o.polls;
        self.events += o.events;
        for (k, n) in &o.faults {
            *self.faults.entry(k).or_insert(0) += n;
            *self.fault_runs.entry(k).or_insert(0) += 1;
        }
        for (k, n) in &o.probes {
            *self.probes.entry(k).or_insert(0) += n;
        }
        if o.nontrivial {
            self.nontrivial += 1;
            if self.fps.len() < 4_000_000 {
                self.fps.insert(o.fp);
            }
        }
        if self.samples.len() < 2 && o.nontrivial {
            self.samples.push(json!({"seed": seed, "summary": o.summary, "faults": o.faults, "choices": o.log.iter().take(60).collect::<Vec<_>>()}));
        }
        for v in &o.viols {
            for p in &v.props {
                *self.other.entry(p.to_string()).or_insert(0) += 1;
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.polls += o.polls;
        self.events += o.events;
        self.nontrivial += o.nontrivial;
        for (k, n) in o.faults {
            *self.faults.entry(k).or_insert(0) += n;
        }
        for (k, n) in o.fault_runs {
            *self.fault_runs.entry(k).or_insert(0) += n;
        }
        for (k, n) in o.probes {
            *self.probes.entry(k).or_insert(0) += n;
        }
        self.fps.extend(o.fps);
        if self.samples.len() < 3 {
            self.samples.extend(o.samples);
        }
        for (k, n) in o.other {
            *self.other.entry(k).or_insert(0) += n;
        }
    }
}

/// Exit code: 0 clean, 1 violation, 2 harness error.
pub fn batch(b: &Batch, sc: Scenario, table: &'static [MethodInfo]) -> i32 {
    let t0 = Instant::now();
    println!("seed {} scenario {} focus {} runtime {}", b.seed, b.scenario, b.focus, b.runtime);
    let deadline = t0 + Duration::from_secs_f64(b.secs);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Outcome)>> = Mutex::new(None);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let total = Mutex::new(Stats::default());
    let slots = Slots::open(b.slots.as_deref());
    std::thread::scope(|s| {
        for j in 0..b.jobs {
            let (next, stop, found, harness, total, slots) = (&next, &stop, &found, &harness, &total, &slots);
            s.spawn(move || {
                let mut st = Stats::default();
                while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= b.max_runs {
                        break;
                    }
                    let seed = seed_of(b.seed, &b.prop, i);
                    slots.begin(j, i, seed);
                    let o = run_once(sc, b.focus, Chooser::seeded(seed), false, table);
                    st.add(seed, &o);
                    if let Some(h) = &o.harness {
                        *harness.lock().unwrap() = Some(format!("seed {seed}: {h}"));
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                    if hit(&o, &b.prop).is_some() {
                        let mut f = found.lock().unwrap();
                        if f.as_ref().map_or(true, |(s, _)| i < *s) {
                            *f = Some((i, o));
                        }
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                }
                slots.idle(j);
                total.lock().unwrap().merge(st);
            });
        }
    });
    let wall = t0.elapsed().as_secs_f64();
    let st = total.into_inner().unwrap();
    if let Some(h) = harness.into_inner().unwrap() {
        eprintln!("harness error: {h}");
        return 2;
    }
    let mut code = 0;
    let mut violation = Value::Null;
    if let Some((i, o)) = found.into_inner().unwrap() {
        let seed = seed_of(b.seed, &b.prop, i);
        let first = hit(&o, &b.prop).unwrap().clone();
        let cls = class(&first);
        println!("run {i} (seed {seed}) violates {}: {}", b.prop, first.what);
        std::fs::create_dir_all(&b.replay_dir).unwrap();
        let path = format!("{}/{}-{}-{}-{seed:016x}.json", b.replay_dir, b.prop, b.scenario, b.runtime);
        if let Some(p) = &b.slots {
            // In case the minimisation does not end well.
            let file = json!({
                "property": b.prop, "scenario": b.scenario, "focus": b.focus, "runtime": b.runtime,
                "seed": seed, "batch_seed": b.seed, "violation": first.what, "properties": first.props,
                "fingerprint": format!("{:016x}", o.fp), "faults": o.faults, "choices": o.log,
                "trace": ["not minimised: minimising does not end well"],
            });
            std::fs::write(&path, file.to_string()).unwrap();
            std::fs::write(deadly::pending_of(Path::new(p)), &path).unwrap();
        }
        let (min, tries) = shrink(o.log.clone(), Duration::from_secs(12), |l| {
            let o2 = run_once(sc, b.focus, Chooser::replay(l.to_vec()), false, table);
            let same = o2.viols.iter().any(|v| (b.prop == "ANY" || v.props.iter().any(|p| *p == b.prop)) && class(v) == cls);
            same.then_some(o2.log)
        });
        println!("minimised {} choices to {} in {tries} runs", o.log.len(), min.len());
        let of = run_once(sc, b.focus, Chooser::replay(min.clone()), true, table);
        let v = of.viols.iter().find(|v| v.props.iter().any(|p| *p == b.prop) && class(v) == cls).or_else(|| hit(&of, &b.prop)).cloned().unwrap_or(first);
        let file = json!({
            "property": b.prop, "scenario": b.scenario, "focus": b.focus, "runtime": b.runtime,
            "seed": seed, "batch_seed": b.seed, "violation": v.what, "properties": v.props,
            "fingerprint": format!("{:016x}", of.fp),
            "faults": of.faults,
            "choices": min, "trace": of.trace,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
        // The file must reproduce the violation in a fresh process.
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &path, "--quiet"])
            .status()
            .unwrap();
        if st.code() != Some(1) {
            eprintln!("harness error: replay of {path} did not reproduce the violation (status {st})");
            return 2;
        }
        println!("{}", v.what);
        println!("VIOLATION property={} replay={path}", b.prop);
        violation = json!({"seed": seed, "what": v.what, "replay": path, "shrink_runs": tries});
        code = 1;
    }
    let rep = json!({
        "scenario": b.scenario, "focus": b.focus, "runtime": b.runtime,
        "runs": st.runs, "nontrivial_runs": st.nontrivial, "distinct_interleavings": st.fps.len(),
        "steps": st.steps, "polls": st.polls, "events": st.events,
        "faults_injected": st.faults, "runs_with_fault": st.fault_runs, "reach_probes": st.probes,
        "violations_by_property": st.other,
        "samples": st.samples.iter().take(3).collect::<Vec<_>>(),
        "wall_s": wall, "runs_per_hour": (st.runs as f64 / wall.max(0.001) * 3600.0) as u64,
        "violation": violation,
    });
    println!(
        "{} runs, {} distinct non-trivial, {} events in {wall:.1}s; violations seen by property: {:?}",
        st.runs, st.fps.len(), st.events, st.other
    );
    if let Some(p) = &b.out {
        let mut f = std::fs::File::create(p).unwrap();
        f.write_all(serde_json::to_string_pretty(&rep).unwrap().as_bytes()).unwrap();
    }
    code
}

/// Runs the search in a process of its own, so that a run which never ends or ends the process is found.
pub fn supervised(b: &Batch, args: &[String]) -> i32 {
    std::fs::create_dir_all(&b.replay_dir).unwrap();
    let slots = Path::new(&b.replay_dir).join(format!("{}-{}-{}-{}.slots", b.prop, b.scenario, b.runtime, std::process::id()));
    let mut a: Vec<String> = args.to_vec();
    a[0] = "search".into();
    a.extend(["--slots".into(), slots.to_str().unwrap().into()]);
    let big = b.scenario == "scale";
    let limit = Duration::from_secs(if big { 100 } else { 25 });
    let confirm = Duration::from_secs(if big { 60 } else { 8 });
    let quick = Duration::from_millis(if big { 6000 } else { 700 });
    let t0 = Instant::now();
    let total = Duration::from_secs_f64(b.secs + 45.0) + limit;
    let of = |k: &str| -> Vec<String> { [k, "--scenario", b.scenario, "--focus", b.focus].iter().map(|s| s.to_string()).collect() };
    let violation;
    match deadly::supervise(&a, &slots, limit, total) {
        deadly::Ended::Exit(c) => return c,
        deadly::Ended::Pending(path) => {
            println!("the minimisation did not survive");
            println!("VIOLATION property={} replay={path}", b.prop);
            violation = json!({"replay": path});
        }
        deadly::Ended::Dead(seeds) => {
            println!("the search has died; runs in progress: {seeds:?}");
            let one = |seed: u64| {
                let mut v = of("one");
                v.extend(["--seed".into(), seed.to_string()]);
                v
            };
            let Some(f) = deadly::find(&seeds, one, &of("raw"), &slots.with_extension("choices"), confirm, quick) else {
                eprintln!("harness error: the search has died but none of its runs does");
                return 2;
            };
            println!("minimised {} choices to {} in {} runs", f.of, f.choices.len(), f.tries);
            let path = format!("{}/{}-{}-{}-{:016x}.json", b.replay_dir, b.prop, b.scenario, b.runtime, f.seed);
            let file = json!({
                "property": b.prop, "scenario": b.scenario, "focus": b.focus, "runtime": b.runtime,
                "seed": f.seed, "batch_seed": b.seed, "violation": f.death.to_string(), "properties": [b.prop],
                "deadly": true, "choices": f.choices,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
            println!("{}", f.death);
            println!("VIOLATION property={} replay={path}", b.prop);
            violation = json!({"seed": f.seed, "what": f.death.to_string(), "replay": path, "shrink_runs": f.tries});
        }
    }
    if let Some(p) = &b.out {
        let rep = json!({
            "scenario": b.scenario, "focus": b.focus, "runtime": b.runtime, "runs": 0, "nontrivial_runs": 0, "distinct_interleavings": 0,
            "steps": 0, "polls": 0, "events": 0, "faults_injected": {}, "runs_with_fault": {}, "reach_probes": {}, "violations_by_property": {},
            "samples": [], "wall_s": t0.elapsed().as_secs_f64(), "runs_per_hour": 0, "violation": violation,
        });
        std::fs::write(p, rep.to_string()).unwrap();
    }
    1
}

/// A run of a replay file that does not survive, in a process of its own.
fn replay_deadly(v: &Value, path: &str, quiet: bool) -> i32 {
    let list: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let file = std::env::temp_dir().join(format!("tl-{}.choices", std::process::id()));
    deadly::write_choices(&file, &list);
    std::env::set_var("TL_CHOICES", &file);
    let args: Vec<String> = ["raw", "--scenario", v["scenario"].as_str().unwrap(), "--focus", v["focus"].as_str().unwrap()].iter().map(|s| s.to_string()).collect();
    let d = deadly::probe(&args, Duration::from_secs(if v["scenario"] == "scale" { 60 } else { 8 }));
    let _ = std::fs::remove_file(&file);
    match d {
        Some(d) => {
            if !quiet {
                println!("{d}\nVIOLATION property={} replay={path}", v["property"].as_str().unwrap());
            }
            1
        }
        None => {
            if !quiet {
                println!("no violation of {}", v["property"].as_str().unwrap());
            }
            0
        }
    }
}

pub fn replay(path: &str, quiet: bool, pick: impl Fn(&str) -> Scenario, table: &'static [MethodInfo], focus_of: impl Fn(&str) -> &'static str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    if v["deadly"] == true {
        return replay_deadly(&v, path, quiet);
    }
    let prop = v["property"].as_str().unwrap().to_string();
    let list: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let o = run_once(pick(v["scenario"].as_str().unwrap()), focus_of(v["focus"].as_str().unwrap()), Chooser::replay(list), true, table);
    if !quiet {
        for l in &o.trace {
            println!("{l}");
        }
    }
    if let Some(h) = o.harness {
        eprintln!("harness error: {h}");
        return 2;
    }
    match hit(&o, &prop) {
        Some(x) => {
            let same = v["fingerprint"].as_str() == Some(&format!("{:016x}", o.fp));
            if !quiet {
                println!("{}\nVIOLATION property={prop} replay={path}{}", x.what, if same { "" } else { " (different execution: the code has changed)" });
            }
            1
        }
        None => {
            if !quiet {
                println!("no violation of {prop}");
            }
            0
        }
    }
}
