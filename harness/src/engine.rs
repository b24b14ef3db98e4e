//! Case engine: choice tapes, seeded search, shrinking, evidence, crash isolation.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- choices

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed ^ 0x9E37_79B9_7F4A_7C15;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a | 1, b)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Source of choices: every value a case uses comes from here and is recorded on the tape.
pub struct Src {
    rng: Option<Rng>,
    input: Vec<u64>,
    pos: usize,
    pub tape: Vec<u64>,
    /// size hint, 1..=4 (larger in the thorough tier)
    pub size: usize,
    /// write each choice here as it is made (for cases that kill the process)
    pub sink: Option<std::fs::File>,
    /// this case may contain one long or deep part
    armed: bool,
    stretched: bool,
}

const MAX_TAPE: usize = 60_000;

impl Src {
    pub fn random(seed: u64, size: usize) -> Self {
        let mut rng = Rng::new(seed);
        let armed = (rng.next() >> 20) % 24 == 0;
        Src { rng: Some(rng), input: vec![], pos: 0, tape: vec![], size, sink: None, armed, stretched: false }
    }
    pub fn replay(tape: &[u64], size: usize) -> Self {
        Src { rng: None, input: tape.to_vec(), pos: 0, tape: vec![], size, sink: None, armed: false, stretched: false }
    }
    /// replays `tape`, then goes on at random
    pub fn guided(tape: &[u64], seed: u64, size: usize) -> Self {
        let mut s = Src::random(seed, size);
        s.input = tape.to_vec();
        s
    }
    fn next_with<F: FnOnce(&mut Rng) -> u64>(&mut self, bound: u64, f: F) -> u64 {
        // bound == 0 means the full 64 bit range
        let v = if self.tape.len() >= MAX_TAPE {
            0
        } else {
            let given = self.input.get(self.pos).copied();
            self.pos += 1;
            match (given, self.rng.as_mut()) {
                (Some(v), _) => v,
                (None, Some(r)) => f(r),
                (None, None) => 0,
            }
        };
        let v = if bound != 0 && v >= bound { v % bound } else { v };
        self.tape.push(v);
        if let Some(f) = self.sink.as_mut() {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.next_with(0, |r| r.next())
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.next_with(n as u64, |r| (r.next() >> 11) % (n as u64)) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is the simple outcome
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.next_with(2, |r| (((r.next() >> 11) % (den as u64)) < num as u64) as u64) == 1
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    /// weighted alternative; index 0 is the simplest
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        self.next_with(w.len() as u64, |r| {
            let mut x = ((r.next() >> 11) % (total as u64)) as usize;
            for (i, wi) in w.iter().enumerate() {
                if x < *wi {
                    return i as u64;
                }
                x -= wi;
            }
            unreachable!()
        }) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// geometric-ish length in 0..=max
    pub fn len(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let m = if self.stretched { max.min(3) as u64 } else { max as u64 };
        let (more, armed) = (!self.stretched as u64, self.armed && !self.stretched);
        let n = self.next_with(m + 1 + more, |r| {
            let x = r.next() >> 11;
            if armed && (x >> 40) % 3 == 0 {
                return m + 1;
            }
            match x % 8 {
                0..=4 => (x >> 8) % (m.min(3) + 1),
                5 | 6 => (x >> 8) % (m.min(8) + 1),
                _ => (x >> 8) % (m + 1),
            }
        });
        if n > m {
            // the one long part of this case
            self.stretched = true;
            return m as usize + self.magnitude(600);
        }
        n as usize
    }
    /// 0..=max, every order of magnitude alike; or next to a larger number that the program's text contains
    fn magnitude(&mut self, max: usize) -> usize {
        let top = (max + 1) as u64;
        let reach = if max < 100 { 4 * top } else { top.max(2200) };
        let known = &crate::dict::get().large;
        self.next_with(reach, |r| {
            let x = r.next() >> 11;
            let n = if known.is_empty() { 0 } else { known[(x >> 8) as usize % known.len()] + (x >> 30) % 3 - 1 };
            if n > 0 && n < reach && (x >> 40) % 4 == 0 {
                return n;
            }
            let bits = x % (65 - top.leading_zeros() as u64);
            ((x >> 8) % (1 << bits)) % top
        }) as usize
    }
    /// 0..=max: every order of magnitude, round numbers in two bases, and numbers of the program's own, each give or take one
    pub fn count(&mut self, max: usize) -> usize {
        let top = max as u64 + 1;
        let known = &crate::dict::get().numbers;
        self.next_with(top, |r| {
            let x = r.next() >> 11;
            let y = r.next() >> 11;
            let bits = 64 - top.leading_zeros() as u64;
            let near = |n: u64| n.wrapping_add(y % 3).wrapping_sub(1);
            let n = match x % 8 {
                0 | 1 if !known.is_empty() => near(known[(x >> 8) as usize % known.len()]),
                2 | 3 => near(1 << ((x >> 8) % bits)),
                4 => near([1, 2, 5][(x >> 8) as usize % 3] * 10u64.pow((x >> 16) as u32 % 6)),
                _ => (y >> 8) % (1 << ((x >> 8) % (bits + 1))),
            };
            n % top
        }) as usize
    }
    /// a word of the program's own, if it has any
    pub fn word(&mut self) -> Option<&'static str> {
        let w = &crate::dict::get().words;
        if w.is_empty() {
            return None;
        }
        Some(&w[self.below(w.len())])
    }
    /// 0, or the size of the one long part of this case
    pub fn stretch(&mut self, max: usize) -> usize {
        if self.stretched {
            return 0;
        }
        let armed = self.armed;
        let yes = self.next_with(2, |r| (armed && (r.next() >> 20) % 6 == 0) as u64) == 1;
        if yes {
            self.stretched = true;
            return self.magnitude(max);
        }
        0
    }
}

// ---------------------------------------------------------------- cases

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub discard: bool,
    pub show: String,
    pub labels: Vec<&'static str>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
}

pub type CaseResult = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> CaseResult;

pub struct Check {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub f: CaseFn,
}

/// A specific, named input that is known to fail (or was repaired); see known_findings.txt
pub struct Probe {
    pub key: &'static str,
    pub what: &'static str,
    /// returns Some(description) if the property is broken on that input
    pub f: fn() -> Option<String>,
    /// run in a child process; death of the child counts as broken
    pub isolated: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub checks: Vec<Check>,
    pub probes: Vec<Probe>,
    pub assumptions: Vec<&'static str>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_case = IN_CASE.with(|c| *c.borrow());
        if !in_case {
            default(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
    }));
}

/// Run `f`, turning a panic into Err(message).
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    let prev = IN_CASE.with(|c| std::mem::replace(&mut *c.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| *c.borrow_mut() = prev);
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// ceiling of any single case; a case normally stays far below a thousandth of it
pub const CASE_ALLOCS: u64 = 400_000_000;
pub const CASE_BYTES: u64 = 40_000_000_000;

pub struct Outcome {
    pub res: CaseResult,
    pub ctx: Ctx,
    pub tape: Vec<u64>,
}

pub fn run_case(f: CaseFn, mut src: Src) -> Outcome {
    let mut ctx = Ctx::default();
    crate::alloc::limit(CASE_ALLOCS, CASE_BYTES);
    let res = match guard(|| f(&mut src, &mut ctx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    crate::alloc::unlimited();
    Outcome { res, ctx, tape: src.tape }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn case_seed(seed: u64, prop: &str, check: &str, idx: u64) -> u64 {
    let mut s = seed ^ fnv(prop.as_bytes()).rotate_left(17) ^ fnv(check.as_bytes()).rotate_left(31);
    let a = splitmix(&mut s);
    let mut t = a ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut t)
}

pub fn tape_hash(t: &[u64]) -> u64 {
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = H(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- shrinking

pub fn trim(mut t: Vec<u64>) -> Vec<u64> {
    while t.last() == Some(&0) {
        t.pop();
    }
    t
}

/// Shortlex-smaller failing tape. `eval` returns the consumed tape if the candidate still fails.
pub fn shrink_tape(tape: Vec<u64>, budget: usize, secs: u64, eval: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = trim(tape);
    let mut evals = 0usize;
    let start = std::time::Instant::now();
    let less = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    macro_rules! try_tape {
        ($c:expr) => {{
            if evals >= budget || start.elapsed().as_secs() >= secs {
                return best;
            }
            evals += 1;
            let cand: Vec<u64> = $c;
            if let Some(t) = eval(&cand) {
                let mut t = trim(t);
                let c = trim(cand);
                if less(&c, &t) {
                    t = c;
                }
                if less(&t, &best) {
                    best = t;
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(k);
                if lo < best.len() {
                    let hi = (lo + k).min(best.len());
                    let mut c = best.clone();
                    c.drain(lo..hi);
                    try_tape!(c);
                }
                i = lo;
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + k).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..hi] {
                        *x = 0;
                    }
                    try_tape!(c);
                }
                i += k;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for cand in [v / 2, v.wrapping_sub(1)] {
                if i < best.len() && cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    try_tape!(c);
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

pub fn shrink(f: CaseFn, size: usize, tape: Vec<u64>, budget: usize) -> (Vec<u64>, Outcome) {
    let first = run_case(f, Src::replay(&tape, size));
    if first.res.is_ok() {
        return (tape, first);
    }
    let t = shrink_tape(tape, budget, 60, &mut |c| {
        let o = run_case(f, Src::replay(c, size));
        if o.res.is_err() && !o.ctx.discard {
            Some(o.tape)
        } else {
            None
        }
    });
    let o = run_case(f, Src::replay(&t, size));
    (t, o)
}

// ---------------------------------------------------------------- running

pub struct CheckReport {
    pub name: &'static str,
    pub rule: &'static str,
    pub evals: u64,
    pub discards: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<(u64, Vec<u64>, String)>,
}

#[derive(Default)]
struct Acc {
    evals: u64,
    discards: u64,
    seen: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: BTreeMap<u64, String>,
}

pub fn threads() -> usize {
    8
}

/// milliseconds since the epoch at which each thread began its current case (0: idle)
pub static BUSY: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];
pub const HUNG: i32 = 78;
pub const CASE_SECS: u64 = 120;

pub fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(1)
}

/// ends the process if one case runs for longer than CASE_SECS
pub fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = now_ms();
        for b in &BUSY {
            let t = b.load(Ordering::Relaxed);
            if t != 0 && now > t + CASE_SECS * 1000 {
                crate::alloc::die(HUNG);
            }
        }
    });
}

pub fn size_of_tier(thorough: bool) -> usize {
    if thorough {
        2
    } else {
        1
    }
}

pub fn size_for(thorough: bool, idx: u64) -> usize {
    // a quarter of the cases are larger, a few larger still
    let base = size_of_tier(thorough);
    if idx % 64 == 31 {
        base + 2
    } else if idx % 4 == 3 {
        base + 1
    } else {
        base
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

pub fn run_check(prop: &str, c: &Check, seed: u64, thorough: bool, cases: u64, cur: Option<&std::fs::File>, check_idx: u64) -> CheckReport {
    let next = AtomicU64::new(0);
    let fail_at = AtomicU64::new(u64::MAX);
    let fails: Mutex<BTreeMap<u64, (Vec<u64>, String)>> = Mutex::new(BTreeMap::new());
    let accs: Mutex<Vec<Acc>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads() {
            let (next, fail_at, fails, accs) = (&next, &fail_at, &fails, &accs);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || {
                    let mut acc = Acc::default();
                    loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= cases || idx > fail_at.load(Ordering::SeqCst) {
                            break;
                        }
                        if let Some(f) = cur {
                            use std::os::unix::fs::FileExt;
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&(check_idx + 1).to_le_bytes());
                            b[8..].copy_from_slice(&idx.to_le_bytes());
                            let _ = f.write_at(&b, (t * 16) as u64);
                        }
                        BUSY[t].store(now_ms(), Ordering::Relaxed);
                        let o = run_case(c.f, Src::random(case_seed(seed, prop, c.name, idx), size_for(thorough, idx)));
                        BUSY[t].store(0, Ordering::Relaxed);
                        acc.evals += 1;
                        if o.ctx.discard {
                            acc.discards += 1;
                        }
                        for l in &o.ctx.labels {
                            *acc.labels.entry(l).or_insert(0) += 1;
                        }
                        if o.ctx.nontrivial && !o.ctx.discard {
                            let fresh = acc.seen.insert(tape_hash(&o.tape));
                            if fresh && idx < 2000 {
                                acc.samples.insert(idx, clip(&o.ctx.show, 300));
                                while acc.samples.len() > 4 {
                                    acc.samples.pop_last();
                                }
                            }
                        }
                        if let Err(m) = o.res {
                            fail_at.fetch_min(idx, Ordering::SeqCst);
                            fails.lock().unwrap().insert(idx, (o.tape, m));
                        }
                    }
                    if let Some(f) = cur {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(&[0u8; 16], (t * 16) as u64);
                    }
                    accs.lock().unwrap().push(acc);
                })
                .expect("spawn");
        }
    });
    let mut rep = CheckReport {
        name: c.name,
        rule: c.rule,
        evals: 0,
        discards: 0,
        nontrivial: 0,
        labels: BTreeMap::new(),
        samples: vec![],
        failure: None,
    };
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: BTreeMap<u64, String> = BTreeMap::new();
    for a in accs.into_inner().unwrap() {
        rep.evals += a.evals;
        rep.discards += a.discards;
        seen.extend(a.seen);
        for (k, v) in a.labels {
            *rep.labels.entry(k).or_insert(0) += v;
        }
        samples.extend(a.samples);
    }
    rep.nontrivial = seen.len() as u64;
    rep.samples = samples.into_values().take(4).collect();
    if let Some((idx, (tape, msg))) = fails.into_inner().unwrap().into_iter().next() {
        rep.failure = Some((idx, tape, msg));
    }
    rep
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
