//! C29: a result depends on the input alone, not on what was done before, elsewhere or how often.
use super::serde_props::Any;
use super::syntax::any_text;
use super::*;
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::refold;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::{parse_reader, parse_slice, parse_str, value, AsOwned, MergeBehaviour};
use std::collections::HashMap;

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C29",
        vec![
            check("repeated", 12_000, 400_000, "a history of up to 20 calls on a few related texts, each text in its own memory or all in one reused buffer, then the same calls in another order on two fresh threads at once: every call gives what it gave first; non-trivial: at least two texts accepted and one refused", repeated),
            check("suffixed", 30_000, 800_000, "a text as a slice of longer buffers with different surroundings: the same result as alone; non-trivial: the text is accepted", suffixed),
            check("logged", 12_000, 300_000, "the calls on a few texts with logging off, then with a logger that takes and formats every record, then off again: the same results; non-trivial: a text that is accepted and one that logs something", logged),
            check("nested", 40_000, 800_000, "calls made while another is under way, from the callbacks it gives the program (a reader it reads from, the visitor it delivers values to, the logger, an iterator it collects), some of which fail or panic half-way: all results are those of the calls one by one, then and afterwards; non-trivial: a call was made inside another", nested),
        ],
    )]
}

fn show<T: std::fmt::Debug, E: std::fmt::Display>(r: Result<T, E>) -> String {
    match r {
        Ok(x) => format!("ok {:?}", x),
        Err(e) => format!("err {}", e),
    }
}

/// where several things are wrong at once, which is named may depend on the order of a hash map
fn show_any<T: std::fmt::Debug, E>(r: Result<T, E>) -> String {
    show(r.map_err(|_| "an error"))
}

fn sorted(x: Any) -> Any {
    match x {
        Any::Seq(v) => Any::Seq(v.into_iter().map(sorted).collect()),
        Any::Map(v) => {
            let mut v: Vec<_> = v.into_iter().map(|(k, x)| (k, sorted(x))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            Any::Map(v)
        }
        x => x,
    }
}

fn show_map(r: Result<value::MapValues, ferrous_chloride::Error>) -> String {
    show_any(r.map(|m| {
        let mut m = read_map(&m);
        refold::sort_map(&mut m);
        m
    }))
}

type Op = (&'static str, fn(&str) -> String);

const OPS: &[Op] = &[
    ("parse_str", |t| show(parse_str(t))),
    ("parse_slice", |t| show(parse_slice(t.as_bytes()))),
    ("parse_reader", |t| show(parse_reader(t.as_bytes()))),
    ("Expression::parse", |t| show(Expression::parse(t))),
    ("as_owned", |t| show(parse_str(t).map(|b| b.as_owned()))),
    ("value::from_str", |t| show(value::from_str(t, None))),
    ("value::from_str merging", |t| show_map(value::from_str(t, Some(MergeBehaviour::Error)))),
    ("value::from_reader", |t| show_map(value::from_reader(t.as_bytes(), None))),
    ("merge", |t| show_map(value::from_str(t, None).and_then(|m| m.merge()))),
    ("as_merged", |t| show_map(value::from_str(t, None).and_then(|m| m.as_merged()))),
    ("serde::from_str", |t| show_any(ferrous_chloride::serde::from_str::<Any>(t).map(sorted))),
    ("serde map", |t| {
        show_any(ferrous_chloride::serde::from_str::<HashMap<String, Any>>(t).map(|m| {
            let mut v: Vec<_> = m.into_iter().map(|(k, x)| (k, sorted(x))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            v
        }))
    }),
];

fn call(op: usize, t: &str) -> String {
    guard(|| OPS[op].1(t)).unwrap_or_else(|p| format!("panic {}", p))
}

fn texts(s: &mut Src) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..s.range(2, 5) {
        let mut t = match s.below(6) {
            0 | 1 => gen::doc(s).1.out,
            2 => any_text(s),
            3 => {
                let m = super::values::gen_map(s, 2, false);
                super::values::render(s, &m)
            }
            _ if !v.is_empty() => {
                // close to an earlier one: the same length, the same beginning, or one edit away
                let mut t = s.pick(&v).clone();
                match s.below(4) {
                    3 => {
                        // the same characters in another order
                        let mut cs: Vec<char> = t.chars().collect();
                        let like: Vec<usize> = (0..cs.len()).filter(|&i| cs[i].is_ascii_alphanumeric()).collect();
                        for _ in 0..s.range(1, 3) {
                            if like.len() > 1 {
                                let (a, b) = (s.below(like.len()), s.below(3) + 1);
                                cs.swap(like[a], like[(a + b) % like.len()]);
                            }
                        }
                        t = cs.into_iter().collect();
                    }
                    0 => {
                        let cs: Vec<char> = t.chars().collect();
                        let at = s.below(cs.len().max(1));
                        t = cs.iter().enumerate().map(|(i, c)| if i == at && c.is_ascii_alphanumeric() { if *c == '7' { '8' } else { '7' } } else { *c }).collect();
                    }
                    1 => t.push_str(&gen::doc(s).1.out),
                    _ => gen::edit(s, &mut t, None),
                }
                t
            }
            _ => gen::doc(s).1.out,
        };
        if t.len() > 3000 {
            t = "a = 1\n".into();
        }
        v.push(t);
    }
    v
}

fn repeated(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let ts = texts(s);
    let n = s.range(2, 20);
    let calls: Vec<(usize, usize)> = (0..n).map(|_| (s.below(OPS.len()), s.below(ts.len()))).collect();
    c.show = format!("{:?} calls {:?}", ts, calls);
    let ok = ts.iter().filter(|t| parse_str(t).is_ok()).count();
    c.nontrivial_if(ok >= 2 && ok < ts.len());
    let mut first: HashMap<(usize, usize), String> = HashMap::new();
    // every text in turn in the same place in memory, or each in its own
    let reuse = s.bool();
    let mut place = String::with_capacity(ts.iter().map(|t| t.len()).max().unwrap_or(0));
    for &(op, t) in &calls {
        let r = if reuse {
            place.clear();
            place.push_str(&ts[t]);
            call(op, &place)
        } else {
            call(op, &ts[t])
        };
        if let Some(w) = first.get(&(op, t)) {
            same(&format!("{} of {:?} when repeated", OPS[op].0, clip(&ts[t], 200)), &r, w)?;
        } else {
            first.insert((op, t), r);
        }
    }
    // elsewhere, at the same time, in other orders, nothing having gone before
    let mut back = calls.clone();
    back.reverse();
    let mut other = calls.clone();
    let k = s.below(other.len());
    other.rotate_left(k);
    let run = |calls: Vec<(usize, usize)>| {
        let ts = &ts;
        let first = &first;
        move || -> CaseResult {
            for (op, t) in calls {
                let r = call(op, &ts[t]);
                same(&format!("{} of {:?} on another thread", OPS[op].0, clip(&ts[t], 200)), &r, &first[&(op, t)])?;
            }
            Ok(())
        }
    };
    let (a, b) = std::thread::scope(|sc| {
        let spawn = |f| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, f).expect("thread");
        let a = spawn(run(back));
        let b = spawn(run(other));
        (a.join(), b.join())
    });
    a.map_err(|_| "a thread panicked".to_string())??;
    b.map_err(|_| "a thread panicked".to_string())??;
    Ok(())
}

fn suffixed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = if s.chance(1, 3) { any_text(s) } else { gen::doc(s).1.out };
    let before = *s.pick(&["", "a", "\\", "\"", "/*", "\r", "é", "x = 1\n", "<<E\n"]);
    let after = *s.pick(&["\n", "\"", "}", "x", "0", "\nE\n", "é", "*/", "= 1\n", "\u{301}", ".5"]);
    let long = format!("{}{}{}", before, t, after);
    let inner = &long[before.len()..before.len() + t.len()];
    c.show = format!("{:?} inside {:?}..{:?}", t, before, after);
    c.nontrivial_if(parse_str(&t).is_ok());
    for op in 0..OPS.len() {
        let want = call(op, &t);
        ensure!(!want.starts_with("panic"), "{}: {}", OPS[op].0, want);
        same(&format!("{} of a slice", OPS[op].0), &call(op, inner), &want)?;
    }
    Ok(())
}

/// takes everything there is to log, on the threads that ask for it
struct Logger;

thread_local! {
    static LOGGING: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.with(|l| l.get().is_some())
    }
    fn log(&self, r: &log::Record) {
        LOGGING.with(|l| {
            if let Some(n) = l.get() {
                // what is logged by calls from here is not taken
                l.set(None);
                poke();
                let text = format!("{} {} {}", r.level(), r.target(), r.args());
                l.set(Some(n + usize::from(!text.is_empty())));
            }
        })
    }
    fn flush(&self) {}
}

fn take_logs() {
    static LOGGER: Logger = Logger;
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&LOGGER);
    });
}

fn logged(s: &mut Src, c: &mut Ctx) -> CaseResult {
    take_logs();
    let ts = texts(s);
    let calls: Vec<(usize, usize)> = (0..s.range(2, 8)).map(|_| (s.below(OPS.len()), s.below(ts.len()))).collect();
    c.show = format!("{:?} calls {:?}", ts, calls);
    let first: Vec<String> = calls.iter().map(|&(op, t)| call(op, &ts[t])).collect();
    let level = *s.pick(&[log::LevelFilter::Trace, log::LevelFilter::Debug, log::LevelFilter::Info]);
    LOGGING.with(|l| l.set(Some(0)));
    log::set_max_level(level);
    let second: Vec<String> = calls.iter().map(|&(op, t)| call(op, &ts[t])).collect();
    let records = LOGGING.with(|l| l.replace(None)).unwrap_or(0);
    log::set_max_level(log::LevelFilter::Off);
    let third: Vec<String> = calls.iter().map(|&(op, t)| call(op, &ts[t])).collect();
    c.nontrivial_if(records > 0 && calls.iter().any(|&(_, t)| parse_str(&ts[t]).is_ok()));
    for (i, &(op, t)) in calls.iter().enumerate() {
        let what = format!("{} of {:?}", OPS[op].0, clip(&ts[t], 200));
        same(&format!("{} while logging at {}", what, level), &second[i], &first[i])?;
        same(&format!("{} after logging", what), &third[i], &first[i])?;
    }
    Ok(())
}

/// the calls to make from inside other calls
struct Nest {
    calls: Vec<(usize, String, String)>,
    next: usize,
    /// how many more
    left: usize,
    made: usize,
    wrong: Option<String>,
    /// panic instead of this one
    panic_at: Option<usize>,
}

thread_local! {
    static NEST: std::cell::RefCell<Option<Nest>> = const { std::cell::RefCell::new(None) };
}

/// called from every callback of the program's that the library calls
pub fn poke() {
    let Some(mut n) = NEST.with(|n| n.borrow_mut().take()) else { return };
    let mut stop = false;
    if n.left > 0 {
        n.left -= 1;
        n.made += 1;
        stop = n.panic_at == Some(n.made);
        if !stop {
            let (op, t, want) = n.calls[n.next % n.calls.len()].clone();
            n.next += 1;
            let got = call(op, &t);
            if got != want && n.wrong.is_none() {
                n.wrong = Some(format!("{} of {:?} made inside another call: {:?} instead of {:?}", OPS[op].0, clip(&t, 200), clip(&got, 300), clip(&want, 300)));
            }
        }
    }
    NEST.with(|x| *x.borrow_mut() = Some(n));
    if stop {
        panic!("a callback panics");
    }
}

/// gives `piece` bytes at a time, and breaks off after `until` reads
struct Poking<'a>(&'a [u8], usize, usize);

impl std::io::Read for Poking<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        poke();
        if self.2 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken off"));
        }
        self.2 -= 1;
        let n = self.0.len().min(b.len()).min(self.1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn outer(kind: usize, t: &str, piece: usize, until: usize) -> String {
    let r = guard(|| match kind {
        0 => show_any(ferrous_chloride::serde::from_str::<Any>(t).map(sorted)),
        1 => show_any(ferrous_chloride::serde::from_str::<HashMap<String, Any>>(t).map(|m| {
            let mut v: Vec<_> = m.into_iter().map(|(k, x)| (k, sorted(x))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            v
        })),
        2 => show(parse_reader(Poking(t.as_bytes(), piece, until))),
        3 => show_map(value::from_reader(Poking(t.as_bytes(), piece, until), Some(MergeBehaviour::Error))),
        4 => show(parse_str(t).map(|b| {
            b.into_iter()
                .map(|e| {
                    poke();
                    e
                })
                .collect::<ferrous_chloride::parser::Body>()
        })),
        5 => show_map(value::from_str(t, None).map(|m| {
            m.into_iter()
                .map(|e| {
                    poke();
                    e
                })
                .collect::<value::MapValues>()
        })),
        _ => {
            // whatever is logged
            take_logs();
            log::set_max_level(log::LevelFilter::Trace);
            LOGGING.with(|l| l.set(Some(0)));
            let r = show(parse_str(t)) + &show_map(value::from_str(t, Some(MergeBehaviour::Error)));
            LOGGING.with(|l| l.set(None));
            r
        }
    });
    LOGGING.with(|l| l.set(None));
    r.unwrap_or_else(|p| format!("panic {}", p))
}

fn nested(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let ts = texts(s);
    let kind = s.below(7);
    // mostly a document, so that there is something to call back about
    let t = if s.chance(3, 4) { gen::doc(s).1.out } else { s.pick(&ts).clone() };
    let piece = *s.pick(&[1usize << 16, 1, 7, 64]);
    let piece = if t.len() > 500 { piece.max(64) } else { piece };
    let until = if s.chance(1, 4) { s.below(6) } else { usize::MAX };
    let calls: Vec<(usize, String, String)> = (0..s.range(1, 5))
        .map(|_| {
            let op = s.below(OPS.len());
            let t = s.pick(&ts).clone();
            let w = call(op, &t);
            (op, t, w)
        })
        .collect();
    let left = s.range(1, 12);
    let panic_at = if s.chance(1, 5) { Some(s.range(1, 4)) } else { None };
    c.show = format!("callbacks of kind {} in {:?} (pieces of {}, {} reads), calls {:?}, panic at {:?}", kind, clip(&t, 600), piece, until, calls.iter().map(|x| (OPS[x.0].0, clip(&x.1, 200))).collect::<Vec<_>>(), panic_at);
    let alone = outer(kind, &t, piece, until);
    ensure!(!alone.starts_with("panic"), "alone: {}", alone);
    NEST.with(|n| *n.borrow_mut() = Some(Nest { calls: calls.clone(), next: 0, left, made: 0, wrong: None, panic_at }));
    let within = outer(kind, &t, piece, until);
    let n = NEST.with(|n| n.borrow_mut().take()).ok_or("the calls to make are gone")?;
    c.nontrivial_if(n.made > 0);
    c.label(["serde", "serde map", "reader", "value reader", "collected", "value collected", "logger"][kind]);
    let panicked = panic_at.map_or(false, |p| n.made >= p);
    c.label_if(panicked, "a callback panics");
    if let Some(w) = n.wrong {
        return Err(w);
    }
    if !panicked {
        same("a call with others inside it", &within, &alone)?;
    }
    for (op, t, want) in &calls {
        same(&format!("{} of {:?} afterwards", OPS[*op].0, clip(t, 200)), &call(*op, t), want)?;
    }
    same("the call afterwards, with nothing inside it", &outer(kind, &t, piece, until), &alone)
}
