//! C10: entry points and read schedules.
use super::syntax::{any_text, disp};
use super::*;
use crate::ensure;
use crate::gen;
use crate::model::*;
use ferrous_chloride::value;
use ferrous_chloride::{parse_reader, parse_slice, parse_str, Error, MergeBehaviour};
use std::io::{self, ErrorKind, Read};

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C10",
        vec![
            check(
                "schedules",
                12_000,
                300_000,
                "the reader hands out the bytes in at least two pieces, or interrupts at least once",
                c10_schedules,
            ),
            check("faults", 12_000, 300_000, "the failure comes after at least one byte was delivered", c10_faults),
            check("encoding", 12_000, 300_000, "the bytes are not UTF-8", c10_encoding),
            check("every-position", 1_200, 20_000, "at least 8 positions were tried", c10_every_position),
        ],
    )]
}

#[derive(Clone, Debug)]
enum Step {
    /// hand out at most this many bytes
    Chunk(usize),
    Interrupt,
    Fail(ErrorKind, String),
}

/// Delivers `data` by the given steps; past the last step, the rest in pieces of `tail` bytes.
struct Slow<'a> {
    data: &'a [u8],
    steps: std::vec::IntoIter<Step>,
    tail: usize,
    delivered: usize,
    failed: bool,
}

impl<'a> Slow<'a> {
    fn new(data: &'a [u8], steps: &[Step], tail: usize) -> Self {
        Slow { data, steps: steps.to_vec().into_iter(), tail: tail.max(1), delivered: 0, failed: false }
    }
}

impl<'a> Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = match self.steps.next() {
            None => self.tail,
            Some(Step::Chunk(n)) => n.max(1),
            Some(Step::Interrupt) => return Err(io::Error::new(ErrorKind::Interrupted, "again")),
            Some(Step::Fail(k, m)) => {
                self.failed = true;
                return Err(io::Error::new(k, m));
            }
        };
        let n = n.min(buf.len()).min(self.data.len() - self.delivered);
        buf[..n].copy_from_slice(&self.data[self.delivered..self.delivered + n]);
        self.delivered += n;
        Ok(n)
    }
}

/// a document, a broken document or anything else; sometimes longer than any read buffer
fn content(s: &mut Src) -> String {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => gen::doc(s).1.out,
        1 => {
            let mut t = gen::doc(s).1.out;
            gen::edit(s, &mut t, None);
            t
        }
        2 => any_text(s),
        _ => {
            let line = format!("# {}\n", gen::text(s, 10).replace(['\n', '\r'], " "));
            let mut t = line.repeat(s.range(1, 40_000 / line.len()));
            t.push_str(&gen::doc(s).1.out);
            t
        }
    }
}

type New = Result<MBody, String>;
type Old = Result<OMap, String>;

/// the kind of an error, without its wording
fn kind(e: &Error) -> String {
    let d = format!("{:?}", e);
    d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

fn new(r: Result<ferrous_chloride::parser::Body, Error>) -> New {
    r.map(|b| read_body(&b)).map_err(|e| kind(&e))
}

fn old(r: Result<ferrous_chloride::value::MapValues, Error>) -> Old {
    r.map(|b| read_map(&b)).map_err(|e| kind(&e))
}

const MERGES: [Option<MergeBehaviour>; 2] = [None, Some(MergeBehaviour::Error)];

fn c10_schedules(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = content(s);
    let b = t.as_bytes();
    let n = s.len(40);
    let mut steps = vec![];
    let mut interrupted = false;
    for _ in 0..n {
        steps.push(match s.below(4) {
            0 => {
                interrupted = true;
                Step::Interrupt
            }
            1 => Step::Chunk(1),
            2 => Step::Chunk(s.range(1, 5)),
            _ => Step::Chunk(s.range(1, 5000)),
        });
    }
    let tail = *s.pick(&[1usize, 2, 3, 7, 16, 31, 32, 33, 1000, 8192, usize::MAX]);
    c.show = format!("{} bytes, tail {}, {}: {}", b.len(), tail, clip(&format!("{:?}", steps), 100), t);
    c.nontrivial_if(b.len() > 1 && (tail < b.len() || n > 0) || interrupted);
    c.label_if(interrupted, "interrupted");
    c.label_if(b.len() > 8192, "more than one read buffer");
    let want = new(parse_str(&t));
    c.label(if want.is_ok() { "well-formed" } else { "malformed" });
    same("parse_slice against parse_str", &new(parse_slice(b)), &want)?;
    same("parse_reader against parse_str", &new(parse_reader(Slow::new(b, &steps, tail))), &want)?;
    let mut by_ref = Slow::new(b, &steps, tail);
    same("parse_reader(&mut reader) against parse_str", &new(parse_reader(&mut by_ref)), &want)?;
    ensure!(by_ref.delivered == b.len(), "parse_reader left {} bytes unread", b.len() - by_ref.delivered);
    for m in MERGES {
        let want = old(value::from_str(&t, m));
        same("from_slice against from_str", &old(value::from_slice(b, m)), &want)?;
        same("from_reader against from_str", &old(value::from_reader(Slow::new(b, &steps, tail), m)), &want)?;
        let mut by_ref = Slow::new(b, &steps, tail);
        same("from_reader(&mut reader) against from_str", &old(value::from_reader(&mut by_ref, m)), &want)?;
        ensure!(by_ref.delivered == b.len(), "from_reader left {} bytes unread", b.len() - by_ref.delivered);
    }
    Ok(())
}

const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
];

fn is_fault<T: std::fmt::Debug>(what: &str, r: Result<T, Error>, k: ErrorKind, m: &str, exact: bool) -> CaseResult {
    match r {
        Ok(v) => Err(format!("{}: a result although the read failed: {}", what, clip(&format!("{:?}", v), 300))),
        Err(Error::IOError(e)) => {
            if exact {
                ensure!(e.kind() == k, "{}: the read failed with {:?} but {:?} is reported", what, k, e.kind());
                ensure!(e.to_string() == m, "{}: the read failed with {:?} but {:?} is reported", what, m, e.to_string());
            }
            Ok(())
        }
        Err(Error::InvalidUnicodeToParse(_)) if !exact => Ok(()),
        Err(e) => Err(format!("{}: the read failed with {:?} but {} is reported", what, k, disp(&e))),
    }
}

fn fault(b: &[u8], pre: &[Step], k: ErrorKind, m: &str) -> CaseResult {
    let exact = std::str::from_utf8(b).is_ok();
    let mut steps = pre.to_vec();
    steps.push(Step::Fail(k, m.to_string()));
    let mut r = Slow::new(b, &steps, usize::MAX);
    let got = parse_reader(&mut r);
    ensure!(r.failed || got.is_err(), "parse_reader did not read to the end");
    is_fault("parse_reader", got, k, m, exact)?;
    for merge in MERGES {
        let mut r = Slow::new(b, &steps, usize::MAX);
        let got = value::from_reader(&mut r, merge);
        ensure!(r.failed || got.is_err(), "from_reader did not read to the end");
        is_fault("from_reader", got, k, m, exact)?;
    }
    Ok(())
}

fn c10_faults(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = content(s);
    let mut b = t.into_bytes();
    if s.chance(1, 12) {
        spoil(s, &mut b);
    }
    let k = *s.pick(&KINDS);
    let m = gen::text(s, 8);
    let mut left = match s.weighted(&[3, 1, 1]) {
        0 => s.below(b.len() + 1),
        1 => b.len(),
        _ => 0,
    };
    let mut pre = vec![];
    c.nontrivial_if(left > 0);
    c.label_if(left == b.len(), "fails after the last byte");
    c.label_if(left < b.len() && left > 0 && std::str::from_utf8(&b[..left]).is_err(), "fails inside a character");
    c.show = format!("fails with {:?} {:?} after {} of {} bytes: {}", k, m, left, b.len(), String::from_utf8_lossy(&b));
    while left > 0 {
        if s.chance(1, 4) {
            pre.push(Step::Interrupt);
        }
        let n = s.range(1, left);
        pre.push(Step::Chunk(n));
        left -= n;
    }
    // large chunks may be cut short by the caller's buffer: then the failure just comes earlier
    fault(&b, &pre, k, &m)
}

/// make the bytes invalid UTF-8
fn spoil(s: &mut Src, b: &mut Vec<u8>) {
    const BAD: &[&[u8]] = &[
        b"\x80",
        b"\xbf",
        b"\xc3",
        b"\xc0\x80",
        b"\xc1\xbf",
        b"\xe0\x80\x80",
        b"\xe2\x82",
        b"\xed\xa0\x80",
        b"\xed\xbf\xbf",
        b"\xf0\x9f\x98",
        b"\xf0\x80\x80\x80",
        b"\xf4\x90\x80\x80",
        b"\xf8\x88\x80\x80\x80",
        b"\xfe",
        b"\xff",
    ];
    let x: &[u8] = s.pick(BAD);
    let mut i = match s.below(4) {
        0 => b.len(),
        1 => 0,
        _ => s.below(b.len() + 1),
    };
    // at a character boundary, and never before a continuation byte that would complete it
    while i < b.len() && (b[i] & 0xc0) == 0x80 {
        i += 1;
    }
    let tail = b.split_off(i);
    b.extend_from_slice(x);
    b.extend_from_slice(&tail);
}

fn c10_encoding(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut b = content(s).into_bytes();
    match s.below(4) {
        0 if !b.is_empty() => {
            let n = s.below(b.len());
            b.truncate(n);
        }
        _ => spoil(s, &mut b),
    }
    let tail = *s.pick(&[1usize, 2, 3, 5, 32, 1000, usize::MAX]);
    c.show = format!("tail {}: {:?}", tail, String::from_utf8_lossy(&b));
    let text = std::str::from_utf8(&b);
    c.nontrivial_if(text.is_err());
    let steps: Vec<Step> = (0..s.len(4)).map(|_| if s.bool() { Step::Interrupt } else { Step::Chunk(1) }).collect();
    match text {
        Ok(t) => {
            same("parse_reader", &new(parse_reader(Slow::new(&b, &steps, tail))), &new(parse_str(t)))?;
            same("from_reader", &old(value::from_reader(Slow::new(&b, &steps, tail), None)), &old(value::from_str(t, None)))
        }
        Err(_) => {
            let bad = |what: &str, r: Result<(), Error>| match r {
                Err(Error::InvalidUnicodeToParse(_)) => Ok(()),
                Err(Error::IOError(ref e)) if e.kind() == ErrorKind::InvalidData => Ok(()),
                Err(e) => Err(format!("{}: invalid UTF-8 is reported as {}", what, disp(&e))),
                Ok(()) => Err(format!("{}: accepted invalid UTF-8", what)),
            };
            bad("parse_slice", parse_slice(&b).map(|_| ()))?;
            bad("parse_reader", parse_reader(Slow::new(&b, &steps, tail)).map(|_| ()))?;
            for m in MERGES {
                bad("from_slice", value::from_slice(&b, m).map(|_| ()))?;
                bad("from_reader", value::from_reader(Slow::new(&b, &steps, tail), m).map(|_| ()))?;
            }
            Ok(())
        }
    }
}

/// one failure or interruption at every position of one document
fn c10_every_position(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = gen::doc(s).1.out;
    let b = t.as_bytes();
    let n = b.len().min(300);
    c.show = t.clone();
    c.nontrivial_if(n >= 8);
    let k = *s.pick(&KINDS);
    let want = new(parse_str(&t));
    let wold = old(value::from_str(&t, None));
    for i in 0..=n {
        let mut pre = vec![];
        // single bytes, so that the failure comes at exactly this position
        for _ in 0..i {
            pre.push(Step::Chunk(1));
        }
        fault(b, &pre, k, "broken")?;
        if i % 4 == 0 {
            pre.push(Step::Interrupt);
            same("parse_reader, interrupted", &new(parse_reader(Slow::new(b, &pre, usize::MAX))), &want)?;
            same("from_reader, interrupted", &old(value::from_reader(Slow::new(b, &pre, usize::MAX), None)), &wold)?;
        }
    }
    Ok(())
}
