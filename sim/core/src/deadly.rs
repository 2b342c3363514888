//! Runs that end the process or never end: they are confirmed, minimised and replayed in processes of
//! their own.

use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

use crate::shrink::shrink;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Death {
    Signal(i32),
    Hang,
}

impl std::fmt::Display for Death {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Death::Signal(n) => write!(f, "the process is killed by signal {n} while it runs the server's code"),
            Death::Hang => write!(f, "the server's code never returns"),
        }
    }
}

/// The run a worker is at. One slot per worker in a file, so that it survives the process.
pub struct Slots(Option<File>);

const SLOT: u64 = 16;

impl Slots {
    pub fn open(path: Option<&str>) -> Slots {
        Slots(path.map(|p| File::create(p).expect("harness: slots")))
    }
    /// Run `i` with this seed begins.
    pub fn begin(&self, worker: usize, i: u64, seed: u64) {
        self.put(worker, i + 1, seed);
    }
    pub fn idle(&self, worker: usize) {
        self.put(worker, 0, 0);
    }
    fn put(&self, worker: usize, n: u64, seed: u64) {
        if let Some(f) = &self.0 {
            let mut b = [0u8; SLOT as usize];
            b[..8].copy_from_slice(&n.to_le_bytes());
            b[8..].copy_from_slice(&seed.to_le_bytes());
            f.write_all_at(&b, worker as u64 * SLOT).expect("harness: slots");
        }
    }
}

fn read_slots(path: &Path) -> Vec<(u64, u64)> {
    let b = std::fs::read(path).unwrap_or_default();
    let n = |s: &[u8]| u64::from_le_bytes(s.try_into().unwrap());
    b.chunks_exact(SLOT as usize).map(|c| (n(&c[..8]), n(&c[8..]))).collect()
}

/// This program with the given arguments and a limit of address space.
pub fn this_program(args: &[String], gigabytes: u64) -> Command {
    let mut c = Command::new("sh");
    c.arg("-c").arg(format!("ulimit -v {}; ulimit -c 0; exec \"$0\" \"$@\"", gigabytes << 20)).arg(std::env::current_exe().unwrap()).args(args);
    c
}

fn deadly(st: ExitStatus) -> Option<Death> {
    st.signal().filter(|n| [4, 6, 7, 8, 11].contains(n)).map(Death::Signal)
}

fn kill(c: &mut Child) {
    let _ = c.kill();
    let _ = c.wait();
}

/// Runs the program quietly and tells whether it dies.
pub fn probe(args: &[String], limit: Duration) -> Option<Death> {
    let mut c = this_program(args, 6).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("harness: spawn");
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().expect("harness: wait") {
            return deadly(st);
        }
        if t0.elapsed() > limit {
            kill(&mut c);
            return Some(Death::Hang);
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// How a supervised search ended.
pub enum Ended {
    Exit(i32),
    /// It died, or stands still; these runs were in progress.
    Dead(Vec<u64>),
    /// It has found a violation but did not survive its minimisation.
    Pending(String),
}

/// Runs a search in a process of its own. No run may take longer than `limit`.
pub fn supervise(args: &[String], slots: &Path, limit: Duration, total: Duration) -> Ended {
    let pending = pending_of(slots);
    let _ = std::fs::remove_file(&pending);
    let _ = std::fs::remove_file(slots);
    let mut c = this_program(args, 26).spawn().expect("harness: spawn");
    let t0 = Instant::now();
    let mut seen: Vec<((u64, u64), Instant)> = vec![];
    let end = loop {
        let st = c.try_wait().expect("harness: wait");
        if let Some(code) = st.and_then(|s| s.code()) {
            break Ended::Exit(code);
        }
        let now = read_slots(slots);
        seen.resize(now.len(), ((0, 0), Instant::now()));
        for (o, n) in seen.iter_mut().zip(&now) {
            if o.0 != *n || n.0 == 0 {
                *o = (*n, Instant::now());
            }
        }
        let late: Vec<u64> = seen.iter().filter(|x| x.1.elapsed() > limit).map(|x| x.0 .1).collect();
        let over = t0.elapsed() > total;
        if st.is_some() || over || !late.is_empty() {
            kill(&mut c);
            if let Ok(p) = std::fs::read_to_string(&pending) {
                break Ended::Pending(p);
            }
            if !late.is_empty() {
                break Ended::Dead(late);
            }
            break Ended::Dead(now.iter().filter(|x| x.0 > 0).map(|x| x.1).collect());
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let _ = std::fs::remove_file(&pending);
    let _ = std::fs::remove_file(slots);
    end
}

pub fn pending_of(slots: &Path) -> PathBuf {
    slots.with_extension("pending")
}

pub struct Found {
    pub seed: u64,
    pub death: Death,
    pub choices: Vec<u32>,
    pub of: usize,
    pub tries: u64,
}

/// Finds the deadly run among the candidates. `one` runs a seed, recording its choices in the file named
/// by TL_CHOICES; `raw` runs the choices in that file.
pub fn find(seeds: &[u64], one: impl Fn(u64) -> Vec<String>, raw: &[String], file: &Path, confirm: Duration, quick: Duration) -> Option<Found> {
    std::env::set_var("TL_CHOICES", file);
    let r = (|| {
        for &seed in seeds {
            std::env::set_var("TL_RECORD", "1");
            let Some(death) = probe(&one(seed), confirm) else { continue };
            std::env::remove_var("TL_RECORD");
            let b = std::fs::read(file).ok()?;
            let mut all: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
            all.truncate(5_000_000);
            let dies = |l: &[u32], limit| {
                write_choices(file, l);
                probe(raw, limit) == Some(death)
            };
            let (min, tries) = shrink(all.clone(), Duration::from_secs(20), |l| dies(l, quick).then(|| l.to_vec()));
            let choices = if dies(&min, confirm) { min } else { all.clone() };
            return Some(Found { seed, death, choices, of: all.len(), tries });
        }
        None
    })();
    std::env::remove_var("TL_RECORD");
    std::env::remove_var("TL_CHOICES");
    let _ = std::fs::remove_file(file);
    r
}

pub fn write_choices(file: &Path, l: &[u32]) {
    let b: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(file, b).expect("harness: choices");
}

pub fn read_choices(file: &Path) -> Vec<u32> {
    let b = std::fs::read(file).expect("harness: choices");
    b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}
