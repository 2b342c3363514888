mod analyze;
mod batch;
mod scen;
mod world;

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};
use simcore::chooser::Chooser;
use simsched::End;
use world::{w, Viol};

#[derive(Default)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub log: Vec<u32>,
    pub fp: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub steps: u64,
    pub polls: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub harness: Option<String>,
    pub summary: Value,
}

const STEP_LIMIT: u64 = 3_000_000;

/// One run. Not reentrant: one run at a time per process.
pub fn run_once(focus: &str, chooser: Chooser, trace: bool) -> Outcome {
    simsched::prepare(chooser, trace);
    let cfg = scen::draw_cfg(simsched::ch(), focus);
    world::install();
    let cfg: &'static scen::Cfg = Box::leak(Box::new(cfg));
    let names = scen::names(cfg);
    scen::prepare_world(names.len());
    let bodies = scen::bodies(cfg)
        .into_iter()
        .map(|b| {
            Box::new(move || {
                if let Err(p) = catch_unwind(AssertUnwindSafe(b)) {
                    let _g = simsched::NoPreempt::new();
                    let text = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
                    std::mem::forget(p);
                    w(|w| {
                        w.ev(b'P', 0, || format!("panic: {text}"));
                        w.panics.push(text)
                    });
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let end = simsched::run(bodies, cfg.policy.clone(), cfg.prios.clone(), cfg.spurious, STEP_LIMIT);
    let mut o = w(|w| {
        analyze::judge(w, cfg, &end, &names);
        let mut probes = w.probes.clone();
        for (k, n) in [
            ("client_operations", w.ops.len()),
            ("messages_to_client", w.wire.len()),
            ("calls", w.calls.len()),
            ("handlers_started", w.runs.len()),
            ("handlers_dropped", w.runs.iter().filter(|r| r.dropped.is_some()).count()),
            ("ids_drawn", w.draws.len()),
        ] {
            if n > 0 {
                *probes.entry(k).or_insert(0) += n as u64;
            }
        }
        Outcome {
            viols: w.viols.clone(),
            faults: w.faults.clone(),
            probes,
            events: w.seq,
            polls: w.runs.iter().map(|r| r.polls.len() as u64).sum(),
            harness: w.panics.iter().find(|p| p.contains("harness:")).cloned(),
            summary: json!({
                "threads": names, "policy": format!("{:?}", cfg.policy), "client_operations": w.ops.len(),
                "messages_to_client": w.wire.len(), "calls": w.calls.len(), "handlers_started": w.runs.len(), "events": w.seq,
            }),
            nontrivial: w.wire.len() + w.calls.iter().filter(|c| c.res.is_some()).count() >= 3,
            ..Default::default()
        }
    });
    let done = end == End::Done;
    let s: &mut simsched::Sched = if done { Box::leak(simsched::take()) } else { simsched::leak() };
    s.fp.add_u64(o.viols.len() as u64);
    o.log = std::mem::take(&mut s.ch.log);
    o.fp = s.fp.0;
    o.trace = s.trace.take().unwrap_or_default();
    o.steps = s.points;
    for (k, n) in [("preemption", s.preemptions), ("spurious_wakeup", s.spurious)] {
        if n > 0 {
            *o.faults.entry(k).or_insert(0) += n;
        }
    }
    for (k, n) in [("thread_switches", s.switches), ("thread_blocks", s.blocks)] {
        *o.probes.entry(k).or_insert(0) += n;
    }
    o.nontrivial &= s.switches >= 2;
    world::remove(done);
    if done {
        // Nobody refers to them any more.
        drop(unsafe { Box::from_raw(s as *mut simsched::Sched) });
        drop(unsafe { Box::from_raw(cfg as *const scen::Cfg as *mut scen::Cfg) });
    }
    o
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // Safe code shares memory only through atomics (also those inside locks and channels), so switching
    // threads there, and at blocking operations, reaches every behaviour that interleaving can produce.
    let points = simsched::init_points(|name| name.contains("4sync6atomic"));
    if std::env::var("SIM_POINTS").is_ok() {
        eprintln!("{points:?}");
    }
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(batch::main(&args));
}
