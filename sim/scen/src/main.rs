mod alloc;
mod analyze;
mod clientcalls;
mod generic;
mod handlers;
mod history;
mod methods;
mod peer;
mod pipes;
mod runner;
mod scale;
mod service;
mod session;
mod world;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use runner::{Batch, Scenario};
use simcore::chooser::Chooser;

const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
    "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24", "C25", "C26", "ANY",
];

fn focus_of(p: &str) -> &'static str {
    PROPS.iter().find(|x| **x == p).copied().unwrap_or("ANY")
}

fn pick(s: &str) -> Scenario {
    match s {
        "session" => session::run,
        "service" => service::run,
        "generic" => generic::run,
        "scale" => scale::run,
        _ => panic!("unknown scenario {s}"),
    }
}

const RUNTIME: &str = if cfg!(feature = "tokio-rt") { "tokio" } else { "agnostic" };

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    session::install_panic_hook();
    let table: &'static [methods::MethodInfo] = Box::leak(methods::table().into_boxed_slice());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("selftest") => {
            methods::selftest();
            println!("ok");
            0
        }
        Some(cmd @ ("check" | "search")) => {
            let prop = get("--prop").expect("--prop");
            let scenario = get("--scenario").unwrap_or_else(|| "session".into());
            let b = Batch {
                focus: focus_of(&get("--focus").unwrap_or_else(|| prop.clone())),
                prop,
                scenario: Box::leak(scenario.into_boxed_str()),
                seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0),
                max_runs: get("--runs").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX),
                jobs: get("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8),
                replay_dir: get("--replay-dir").unwrap_or_else(|| "/tmp/replays".into()),
                out: get("--out"),
                runtime: RUNTIME,
                slots: get("--slots"),
            };
            if cmd == "check" {
                runner::supervised(&b, &args[1..])
            } else {
                runner::batch(&b, pick(b.scenario), table)
            }
        }
        Some("history") => history::run(&args[2], table),
        Some("replay") => runner::replay(&args[2], args.iter().any(|a| a == "--quiet"), pick, table, focus_of),
        // Prints one fingerprint per seed: two such listings must be equal.
        Some("fingerprints") => {
            let n: u64 = get("--runs").and_then(|s| s.parse().ok()).unwrap_or(1000);
            let from: u64 = get("--from").and_then(|s| s.parse().ok()).unwrap_or(0);
            let sc = get("--scenario").unwrap_or_else(|| "session".into());
            let jobs: u64 = get("--jobs").and_then(|s| s.parse().ok()).unwrap_or(1);
            let out = std::sync::Mutex::new(vec![]);
            std::thread::scope(|s| {
                for j in 0..jobs {
                    let (out, sc) = (&out, &sc);
                    s.spawn(move || {
                        for i in (from..from + n).filter(|i| i % jobs == j) {
                            let f = focus_of(PROPS[i as usize % PROPS.len()]);
                            let o = runner::run_once(pick(sc), f, Chooser::seeded(i), false, table);
                            out.lock().unwrap().push((i, o.fp, o.log.len()));
                        }
                    });
                }
            });
            let mut v = out.into_inner().unwrap();
            v.sort();
            for (i, fp, n) in v {
                println!("{i} {fp:016x} {n}");
            }
            0
        }
        // Histogram of violation classes over many runs.
        Some("survey") => {
            let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
            let base: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let sc = get("--scenario").unwrap_or_else(|| "session".into());
            let only = get("--focus");
            let t0 = std::time::Instant::now();
            let hist = std::sync::Mutex::new(std::collections::BTreeMap::<String, (u64, u64, &'static str, usize, String)>::new());
            let runs = std::sync::atomic::AtomicU64::new(0);
            std::thread::scope(|s| {
                for j in 0..8u64 {
                    let (hist, sc, only, runs) = (&hist, &sc, &only, &runs);
                    s.spawn(move || {
                        let mut i = j;
                        while t0.elapsed().as_secs_f64() < secs {
                            let f = only.as_deref().map(focus_of).unwrap_or(focus_of(PROPS[(i / 8) as usize % PROPS.len()]));
                            let seed = runner::seed_of(base, "survey", i);
                            let o = runner::run_once(pick(sc), f, Chooser::seeded(seed), false, table);
                            runs.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            if let Some(h) = &o.harness {
                                println!("HARNESS {f} {seed}: {h}");
                            }
                            let mut h = hist.lock().unwrap();
                            for v in o.viols.iter().take(1) {
                                let e = h.entry(runner::class(v)).or_insert((0, seed, f, usize::MAX, String::new()));
                                e.0 += 1;
                                if o.log.len() < e.3 {
                                    *e = (e.0, seed, f, o.log.len(), format!("{:?} {}", v.props, v.what));
                                }
                            }
                            i += 8;
                        }
                    });
                }
            });
            let h = hist.into_inner().unwrap();
            let mut v: Vec<_> = h.into_iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
            for (_, (n, seed, f, len, what)) in v {
                let mut what = what;
                if what.len() > 400 {
                    let cut = (0..400).rev().find(|&i| what.is_char_boundary(i)).unwrap();
                    what.truncate(cut);
                }
                println!("{n:>6}x  --focus {f} --seed {seed} (len {len}): {what}");
            }
            println!("{} runs", runs.into_inner());
            0
        }
        Some("one") => {
            let seed: u64 = get("--seed").unwrap().parse().unwrap();
            let sc = get("--scenario").unwrap_or_else(|| "session".into());
            let o = runner::run_once(pick(&sc), focus_of(&get("--focus").unwrap_or_default()), Chooser::seeded(seed), true, table);
            for l in &o.trace {
                println!("{l}");
            }
            println!("{:?} {:?}", o.viols, o.harness);
            0
        }
        // The choices in the file TL_CHOICES.
        Some("raw") => {
            let list = simcore::deadly::read_choices(std::path::Path::new(&std::env::var_os("TL_CHOICES").expect("TL_CHOICES")));
            let sc = get("--scenario").unwrap_or_else(|| "session".into());
            runner::run_once(pick(&sc), focus_of(&get("--focus").unwrap_or_default()), Chooser::replay(list), false, table);
            0
        }
        _ => {
            eprintln!("usage: tlsim check|replay|fingerprints|selftest …");
            2
        }
    };
    std::process::exit(code);
}
