//! Minimises a failing choice list: removes chunks, zeroes chunks, lowers values.

use std::time::{Duration, Instant};

/// `fails(list)` runs the list and returns the list actually consumed if it still fails the same
/// way.
pub fn shrink<F>(start: Vec<u32>, budget: Duration, mut fails: F) -> (Vec<u32>, u64)
where
    F: FnMut(&[u32]) -> Option<Vec<u32>>,
{
    let t0 = Instant::now();
    let mut best = start;
    let mut runs = 0u64;
    let key = |l: &[u32]| (l.len(), l.iter().map(|&x| x as u64).sum::<u64>());
    let trim = |l: &mut Vec<u32>| {
        while l.last() == Some(&0) {
            l.pop();
        }
    };
    trim(&mut best);
    let mut try_it = |cand: Vec<u32>, best: &mut Vec<u32>, runs: &mut u64| -> bool {
        *runs += 1;
        let mut c = cand.clone();
        while c.last() == Some(&0) {
            c.pop();
        }
        if key(&c) >= key(best) {
            return false;
        }
        if let Some(mut used) = fails(&c) {
            while used.last() == Some(&0) {
                used.pop();
            }
            let new = if key(&used) < key(&c) { used } else { c };
            if key(&new) < key(best) {
                *best = new;
                return true;
            }
        }
        false
    };
    loop {
        let before = key(&best);
        // Remove chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    return (best, runs);
                }
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !try_it(c, &mut best, &mut runs) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks.
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    return (best, runs);
                }
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    try_it(c, &mut best, &mut runs);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower values.
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [1, v / 2, v.saturating_sub(1)] {
                if t0.elapsed() > budget {
                    return (best, runs);
                }
                if i < best.len() && nv < best[i] && nv > 0 {
                    let mut c = best.clone();
                    c[i] = nv;
                    try_it(c, &mut best, &mut runs);
                }
            }
            i += 1;
        }
        if key(&best) == before {
            return (best, runs);
        }
    }
}
