//! The single source of nondeterminism: every scheduling, workload and fault decision of a run is
//! drawn here, and recorded, so that a run is a pure function of its choice list.

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

fn sink() -> Option<std::fs::File> {
    std::env::var_os("TL_RECORD")?;
    std::fs::File::create(std::env::var_os("TL_CHOICES")?).ok()
}

enum Mode {
    Random(Rng),
    Replay(Vec<u32>),
}

/// Draws choices, either from a seeded generator or from a recorded list.
///
/// By convention choice 0 is always the simplest one (no fault, first task, shortest), and a
/// replayed list that runs out continues with zeros, so that truncating or zeroing a list
/// simplifies the run it denotes.
pub struct Chooser {
    mode: Mode,
    pub log: Vec<u32>,
    /// Where every choice is written at once, for runs that do not survive.
    sink: Option<std::fs::File>,
}

impl Chooser {
    pub fn seeded(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        Chooser { mode: Mode::Random(r), log: Vec::with_capacity(512), sink: sink() }
    }

    pub fn replay(list: Vec<u32>) -> Self {
        Chooser { mode: Mode::Replay(list), log: Vec::with_capacity(512), sink: sink() }
    }

    fn push(&mut self, v: u32) {
        self.log.push(v);
        if let Some(f) = &mut self.sink {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
    }

    /// Uniform in `0..n` (`n >= 1`).
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => ((r.next() >> 32) * n as u64 >> 32) as u32,
            Mode::Replay(l) => l.get(self.log.len()).copied().unwrap_or(0) % n,
        };
        self.push(v);
        v
    }

    /// True with probability `num/den`; the simplest choice is `false`.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => (((r.next() >> 32) * den as u64 >> 32) < num as u64) as u32,
            Mode::Replay(l) => l.get(self.log.len()).copied().unwrap_or(0) % 2,
        };
        self.push(v);
        v == 1
    }

    /// Index into `w`, with probability proportional to the weight; entries of weight 0 are never
    /// chosen. Panics if all weights are 0.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        assert!(total > 0, "no enabled choice");
        let positive = w.iter().filter(|&&x| x > 0).count();
        let first = w.iter().position(|&x| x > 0).unwrap();
        if positive == 1 {
            return first;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => {
                let mut t = ((r.next() >> 32) * total >> 32) as u64;
                let mut pick = first;
                for (i, &x) in w.iter().enumerate() {
                    if t < x as u64 {
                        pick = i;
                        break;
                    }
                    t -= x as u64;
                }
                pick
            }
            Mode::Replay(l) => {
                let v = l.get(self.log.len()).copied().unwrap_or(0) as usize;
                if v < w.len() && w[v] > 0 {
                    v
                } else {
                    first
                }
            }
        };
        self.push(v as u32);
        v
    }

    /// Geometric-ish small number in `lo..=hi`, biased to `lo`.
    pub fn small(&mut self, lo: u32, hi: u32) -> u32 {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo;
        match self.below(4) {
            0 => lo,
            1 => lo + self.below(span.min(3) + 1),
            2 => lo + self.below(span / 2 + 1),
            _ => lo + self.below(span + 1),
        }
    }
}

/// FNV-1a, used to fingerprint executions.
#[derive(Clone, Copy)]
pub struct Fnv(pub u64);

impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}

impl Fnv {
    pub fn add(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    pub fn add_u64(&mut self, v: u64) {
        self.add(&v.to_le_bytes());
    }
}
