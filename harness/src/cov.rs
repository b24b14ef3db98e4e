//! Edge counters of the instrumented library (tools/sancov.sh); absent in the ordinary build.
use std::sync::atomic::{AtomicUsize, Ordering};

static REGIONS: [(AtomicUsize, AtomicUsize); 64] = [const { (AtomicUsize::new(0), AtomicUsize::new(0)) }; 64];

/// called by the instrumentation before main, once per compilation unit
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    if start == stop {
        return;
    }
    for (a, b) in &REGIONS {
        let old = a.load(Ordering::SeqCst);
        if old == start as usize {
            return;
        }
        if old == 0 {
            a.store(start as usize, Ordering::SeqCst);
            b.store(stop as usize, Ordering::SeqCst);
            return;
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_start: *const usize, _stop: *const usize) {}

fn regions() -> impl Iterator<Item = (*mut u8, usize)> {
    REGIONS.iter().map(|(a, b)| (a.load(Ordering::Relaxed), b.load(Ordering::Relaxed))).take_while(|(a, _)| *a != 0).map(|(a, b)| (a as *mut u8, b - a))
}

pub fn counters() -> usize {
    regions().map(|(_, n)| n).sum()
}

pub fn clear() {
    for (p, n) in regions() {
        unsafe { std::ptr::write_bytes(p, 0, n) }
    }
}

/// Adds what was hit since `clear` to `seen` (a bit per count class); true if anything was new.
pub fn merge(seen: &mut Vec<u8>) -> bool {
    seen.resize(counters(), 0);
    let mut fresh = false;
    let mut at = 0;
    for (p, n) in regions() {
        for i in 0..n {
            let c = unsafe { std::ptr::read_volatile(p.add(i)) };
            if c != 0 {
                let class = match c {
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128u8,
                };
                if seen[at + i] & class == 0 {
                    seen[at + i] |= class;
                    fresh = true;
                }
            }
        }
        at += n;
    }
    fresh
}
