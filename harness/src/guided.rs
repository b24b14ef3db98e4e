//! Coverage-guided search over choice tapes: keep every tape that reaches something new, mutate what is kept.
use crate::cov;
use crate::engine::*;
use std::collections::HashSet;
use std::fs;
use std::os::unix::fs::FileExt;
use std::path::Path;
use std::time::{Duration, Instant};

struct Kept {
    tape: Vec<u64>,
    size: usize,
}

const LONGEST: usize = 3000;

/// Searches for `secs` seconds in one thread. Writes OUT.stats, on failure OUT.violation; OUT.case is the case being run.
pub fn run(p: &Prop, ci: usize, seed: u64, n: u64, secs: u64, out: &Path) -> i32 {
    install_hook();
    watchdog();
    let (p_id, c_name, f) = (p.id, p.checks[ci].name, p.checks[ci].f);
    let out2 = out.to_path_buf();
    let r = std::thread::Builder::new().stack_size(512 << 20).spawn(move || search(p_id, c_name, f, seed, n, secs, &out2)).unwrap().join().unwrap();
    if let Some((size, tape, msg)) = r {
        let text = crate::shrunk(p, &p.checks[ci], size, tape, &msg, &out.with_extension("pending"));
        fs::write(out.with_extension("violation"), text).ok();
    }
    0
}

fn search(id: &str, name: &str, f: CaseFn, seed: u64, n: u64, secs: u64, out: &Path) -> Option<(usize, Vec<u64>, String)> {
    let start = Instant::now();
    let case = fs::File::create(out.with_extension("case")).expect("case");
    let mut rng = Rng::new(case_seed(seed, id, name, n ^ 0x6775_6964_6564));
    let mut seen: Vec<u8> = vec![];
    let mut kept: Vec<Kept> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut failure = None;
    let mut last_len = 0usize;
    while start.elapsed() < Duration::from_secs(secs) {
        let (tape, size) = if kept.len() < 8 || rng.next() % 8 == 0 {
            (vec![], 1 + (rng.next() >> 9) as usize % 4)
        } else {
            // newer ones more often
            let k = kept.len() as u64;
            let back = ((rng.next() >> 11) % k) * ((rng.next() >> 11) % k) / k;
            let e = &kept[(k - 1 - back) as usize];
            let other = &kept[((rng.next() >> 11) % k) as usize];
            (mutate(&mut rng, &e.tape, &other.tape), e.size)
        };
        let tail = rng.next();
        // keep to the kept tape at its end as often as going on at random
        let on = tail % 2 == 0 || tape.is_empty();
        let how = if on { format!("guided:{}:", tail) } else { String::new() };
        // for the case that kills the process
        let mut line = format!("{} {}{}", size, how, tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let len = line.len();
        while line.len() < last_len {
            line.push('#');
        }
        last_len = len;
        let _ = case.write_all_at(line.as_bytes(), 0);
        BUSY[0].store(now_ms(), std::sync::atomic::Ordering::Relaxed);
        let src = if on { Src::guided(&tape, tail, size) } else { Src::replay(&tape, size) };
        cov::clear();
        let o = run_case(f, src);
        let fresh = cov::merge(&mut seen);
        BUSY[0].store(0, std::sync::atomic::Ordering::Relaxed);
        evals += 1;
        if o.ctx.nontrivial && !o.ctx.discard {
            distinct.insert(tape_hash(&o.tape));
        }
        if let Err(m) = o.res {
            failure = Some((size, o.tape, m));
            break;
        }
        if fresh && o.tape.len() <= LONGEST {
            kept.push(Kept { tape: trim(o.tape), size });
        }
    }
    let hit = seen.iter().filter(|b| **b != 0).count();
    fs::write(out.with_extension("stats"), format!("{} {} {} {} {}", evals, distinct.len(), kept.len(), hit, cov::counters())).ok();
    failure
}

fn mutate(r: &mut Rng, tape: &[u64], other: &[u64]) -> Vec<u64> {
    let mut t = tape.to_vec();
    let mut below = |n: usize| if n == 0 { 0 } else { (r.next() >> 11) as usize % n };
    for _ in 0..1 + below(4) {
        let at = below(t.len() + 1);
        match below(10) {
            0..=3 if at < t.len() => t[at] = below(40) as u64,
            4 if at < t.len() => t[at] = t[at].wrapping_add([1, u64::MAX, 2, 8][below(4)]),
            5 => {
                let n = 1 + below(8);
                let hi = (at + n).min(t.len());
                t.drain(at..hi);
            }
            6 => {
                let new: Vec<u64> = (0..1 + below(6)).map(|_| below(30) as u64).collect();
                t.splice(at..at, new);
            }
            7 => {
                // repeat a part
                let n = (1 + below(30)).min(t.len() - at);
                let part = t[at..at + n].to_vec();
                t.splice(at..at, part);
            }
            8 => {
                // a part of another
                let from = below(other.len() + 1);
                let n = (1 + below(60)).min(other.len() - from);
                let part = other[from..from + n].to_vec();
                let over = if below(2) == 0 { at } else { (at + n).min(t.len()) };
                t.splice(at..over, part);
            }
            _ => t.truncate(at),
        }
        if t.len() > LONGEST {
            t.truncate(LONGEST);
        }
    }
    t
}
