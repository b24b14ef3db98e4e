//! C25: the work of parsing grows like a low-degree polynomial of the length.
use super::syntax::any_text;
use super::*;
use crate::alloc;
use crate::gen;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::{parse_slice, parse_str, value, MergeBehaviour};

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C25",
        vec![
            check(
                "families",
                60_000,
                1_500_000,
                "the text grows with the family's parameter by at least three levels of nesting or repetitions",
                families,
            ),
            check("budget", 60_000, 2_000_000, "at least 40 bytes", budget),
        ],
    )]
}

type Entry = (&'static str, fn(&str));

const ENTRIES: &[Entry] = &[
    ("parse_str", |t| {
        let _ = parse_str(t);
    }),
    ("parse_slice", |t| {
        let _ = parse_slice(t.as_bytes());
    }),
    ("Expression::parse", |t| {
        let _ = Expression::parse(t);
    }),
    ("value::from_str", |t| {
        let _ = value::from_str(t, None);
    }),
    ("value::from_str merging", |t| {
        let _ = value::from_str(t, Some(MergeBehaviour::Error));
    }),
    ("serde::from_str", |t| {
        let _ = ferrous_chloride::serde::from_str::<super::serde_props::Any>(t);
    }),
];

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}

/// processor time of this thread in seconds: other load does not count
fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 / 1e9
}

/// allocations and seconds of one call
fn cost(f: fn(&str), t: &str) -> (u64, f64) {
    // far above what is allowed: end it here rather than at the general ceiling
    alloc::limit(1_000_000 + 4 * ceiling(t.len()), crate::engine::CASE_BYTES);
    let (a, _) = alloc::used();
    let c = cpu();
    let _ = guard(|| f(t));
    (alloc::used().0 - a, cpu() - c)
}

/// far above what any text of these sizes takes
const SECONDS: f64 = 2.0;

/// (opens, leaves, closes)
const UNITS: &[(&str, &str)] = &[
    ("a {\n", "}\n"),
    ("a \"l\" {\n", "}\n"),
    ("a b {\n", "}\n"),
    ("a = {\n", "}\n"),
    ("a = {", "}"),
    ("a = [", "]"),
    ("[", "]"),
    ("{", "}"),
    ("(", ")"),
    ("a {", "}"),
    ("{ a = ", "}"),
    ("{ a = ", ", }"),
    ("{\n  a = ", "\n}"),
    ("{ \"k\" : ", " }"),
    ("{ b = 1, a = ", "}"),
    ("{ a = [", "] }"),
    ("\"k\" = {", "}"),
    ("\"k\" {", "}"),
    ("a \"l\" \"m\" {", "}"),
    ("[\n", ",]"),
    ("[1, ", "]"),
    ("[(", ")]"),
    ("{ (", ") = 1 }"),
    ("{ [", "] = 1 }"),
    ("{", " = 1 }"),
    ("( ", " )"),
    ("/* ", " */"),
    ("# ", "\n"),
    ("// \n", ""),
    ("<<A\n", "\nA\n"),
    ("<<-A\n  ", "\n  A\n"),
    ("\"", "\""),
    ("a = 1\n", ""),
    ("a = \"x\"\n", ""),
    ("a = <<A\nx\nA\n", ""),
    ("a { b = 1 }\n", ""),
    ("a, ", ""),
    ("1, ", ""),
    ("a ", ""),
    ("\"s\" ", ""),
    ("1", ""),
    ("-", ""),
    (".", ""),
    ("e+", ""),
    ("\\", ""),
    ("\\u00e9", ""),
    ("\\\n", ""),
    (" ", ""),
    ("\t", ""),
    ("\n", ""),
    ("\r\n", ""),
    ("=", ""),
    (",", ""),
    (":", ""),
    ("é", ""),
    ("\n  x", ""),
    ("<<", ""),
    ("/*", ""),
    ("*/", ""),
];

const LEAVES: &[&str] = &["", "1", "\"x\"", "null", "x", "?", "\n", "a = 1\n", "a = 1", "}", "]", "\"", "<<E\n", "/*", "1.", "a", "a =", "b {}", "\\"];
const PREFIXES: &[&str] = &["", "a = ", "a {\n", "a = [", "a = {", "x = \"", "x = <<A\n", "\n", "a "];
const TAILS: &[&str] = &["", "\n", "?", "}", "\nA\n", "\"\n", "x"];

struct Family {
    prefix: &'static str,
    period: Vec<(&'static str, &'static str)>,
    leaf: &'static str,
    close: usize,
    tail: &'static str,
}

impl Family {
    fn at(&self, k: usize) -> String {
        let mut t = self.prefix.to_string();
        for i in 0..k {
            t.push_str(self.period[i % self.period.len()].0);
        }
        t.push_str(self.leaf);
        let n = match self.close {
            0 => k,
            1 => 0,
            2 => k / 2,
            3 => k - 1,
            4 => k + 1,
            _ => k,
        };
        for i in 0..n {
            if self.close == 5 {
                t.push('}');
            } else {
                t.push_str(self.period[(k + self.period.len() * 2 - 1 - i.min(k)) % self.period.len()].1);
            }
        }
        t.push_str(self.tail);
        t
    }
}

fn families(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let n = s.weighted(&[6, 3, 1]) + 1;
    // mostly structure: the first units
    let period: Vec<_> = (0..n).map(|_| if s.chance(2, 3) { UNITS[s.below(26)] } else { *s.pick(UNITS) }).collect();
    let f = Family { prefix: *s.pick(PREFIXES), period, leaf: *s.pick(LEAVES), close: s.below(6), tail: *s.pick(TAILS) };
    let flat = f.period.iter().all(|(_, c)| c.is_empty());
    let ks: &[usize] = if flat {
        &[6, 12, 24, 28, 48, 96, 192, 384]
    } else if s.size > 1 {
        &[6, 12, 24, 28, 48, 96]
    } else {
        &[6, 12, 24, 28, 48]
    };
    cx.show = format!("{:?} of {:?}", f.at(6), f.period);
    cx.nontrivial = f.at(9).len() >= f.at(6).len() + 3;
    for (name, call) in ENTRIES {
        let mut seen: Vec<(usize, usize, u64)> = vec![];
        for k in ks {
            let t = f.at(*k);
            if t.len() > 5000 {
                break;
            }
            let (a, secs) = cost(*call, &t);
            let said = || format!("{} of {:?}: {} allocations, {:.1} s for {} bytes; before: (repetitions, bytes, allocations) {:?}", name, clip(&t, 200), a, secs, t.len(), seen);
            if secs > SECONDS {
                return Err(format!("too much time: {}", said()));
            }
            // doubling the text may at most multiply the work like a fourth power
            if let Some((_, _, b)) = seen.iter().find(|(j, _, _)| 2 * j == *k) {
                if a > 16 * b + 400 {
                    return Err(format!("work more than 16 times that of half the repetitions: {}", said()));
                }
            }
            if a > ceiling(t.len()) {
                return Err(format!("work above {}: {}", ceiling(t.len()), said()));
            }
            seen.push((*k, t.len(), a));
        }
    }
    Ok(())
}

/// allocations allowed for a text of n bytes; the worst seen is about 3 per byte
fn ceiling(n: usize) -> u64 {
    let n = n as u64;
    2_000 + 50 * n + 2 * n * n
}

fn budget(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let t = if s.chance(1, 4) {
        // something broken after a lot of good text, or the other way around
        let mut a = gen::doc(s).1.out;
        let b = any_text(s);
        a.push_str(&b);
        a
    } else {
        any_text(s)
    };
    cx.show = t.clone();
    cx.nontrivial = t.len() >= 40;
    for (name, call) in ENTRIES {
        let (a, secs) = cost(*call, &t);
        if a > ceiling(t.len()) || secs > SECONDS {
            return Err(format!("{}: {} allocations, {:.1} s for {} bytes", name, a, secs, t.len()));
        }
    }
    Ok(())
}
