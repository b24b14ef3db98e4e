//! C26: kinds and details of errors.
use super::syntax::{any_text, judged};
use super::values::{gen_map, render};
use super::*;
use crate::ensure;
use crate::gen::{self, Lay};
use crate::model::*;
use crate::refold::{self, Clash};
use crate::refp;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::value::{self, MapValues, Value};
use ferrous_chloride::{map_err, map_err_str, parse_reader, parse_slice, parse_str, Error, MergeBehaviour};
use nom::types::{CompleteByteSlice, CompleteStr};
use nom::verbose_errors::Context;
use nom::{call, Err as NomErr, ErrorKind, Needed};

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C26",
        vec![
            check("bad-escape", 40_000, 1_000_000, "the escape stands below at least one block, object, tuple or label", bad_escape),
            check("kind-of-refusal", 60_000, 1_500_000, "the text is refused", kind_of_refusal),
            check("reading", 20_000, 400_000, "the failure comes after the first byte", reading),
            check("merge-conflict", 40_000, 1_000_000, "the clash is below the top level or not between two scalars", merge_conflict),
            check("remaining", 30_000, 600_000, "something remains", remaining),
            check("converted", 80_000, 2_000_000, "a list of at least two entries, or a code of the library", converted),
            check("deserializing", 60_000, 1_500_000, "the failing part stands below another construct, or the text is refused by the parser", deserializing),
            check("macros", 30_000, 600_000, "the parser fails", macros),
        ],
    )]
}

const MERGES: [Option<MergeBehaviour>; 2] = [None, Some(MergeBehaviour::Error)];

fn show(e: &Error) -> String {
    clip(&format!("{:?}", e), 300)
}

// ------------------------------------------------------------------ escapes

/// text after the backslash
fn bad_escape_text(s: &mut Src) -> String {
    match s.below(7) {
        0 => format!("u{:04x}", s.range(0xd800, 0xdfff)),
        1 => format!("u{:04X}", s.range(0xd800, 0xdfff)),
        2 => format!("U{:08x}", s.range(0xd800, 0xdfff)),
        3 => format!("U{:08X}", if s.bool() { 0x11_0000 + s.below(1000) } else { s.range(0x11_0000, 0xffff_ffff) }),
        4 => format!("U{:x}", 0x11_0000 + s.below(100_000)),
        // no digits at all
        5 => s.pick(&["x", "u", "U"]).to_string(),
        _ => format!("x{}", s.pick(&["g", "-", "é", " ", "\\"])),
    }
}

fn bad_escape(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let bad = bad_escape_text(s);
    // for the digits not to go on
    let bare = bad.len() == 1 || bad.starts_with('x');
    let sep = if bare { *s.pick(&["z", " ", "é", "~"]) } else { *s.pick(&["z", " ", "", "é"]) };
    let depth = s.weighted(&[3, 4, 3, 2]);
    // the subset both parsers read
    let mut head = String::new();
    let mut close = vec![];
    let mut in_expr = false;
    for _ in 0..s.below(3) {
        head.push_str(s.pick(&["ok = 1\n", "# \\uD800\n", "ok = \"\\u00e9\"\n", "other {\n}\n", "t = <<A\n\\uD800\nA\n", "ok = [1, \"\\x41\"]\n"]));
    }
    for _ in 0..depth {
        if in_expr {
            match s.below(2) {
                0 => {
                    head.push_str(s.pick(&["[", "[1, ", "[ \"\\101\", "]));
                    close.push("]");
                }
                _ => {
                    head.push_str(s.pick(&["{ k = ", "{ j = 1, k = "]));
                    close.push(" }");
                }
            }
        } else {
            match s.below(3) {
                0 => {
                    head.push_str(s.pick(&["blk {\n", "blk \"l\" {\n", "blk \"l\" \"\\n\" {\nz = 1\n"]));
                    close.push("}\n");
                }
                1 => {
                    head.push_str(s.pick(&["v = [", "v = [[], "]));
                    close.push("]\n");
                    in_expr = true;
                }
                _ => {
                    head.push_str("v = {\n  k = ");
                    close.push("\n}\n");
                    in_expr = true;
                }
            }
        }
    }
    let as_label = !in_expr && s.chance(1, 4);
    if in_expr {
        head.push('"');
    } else if as_label {
        head.push_str(s.pick(&["blk \"", "blk \"l\" \""]));
        close.push(" {\n}\n");
    } else {
        head.push_str("v = \"");
        close.push("\n");
    }
    head.push_str(s.pick(&["", "text ", "\\t", "\\\\", "é"]));
    let at = head.len() + 1;
    let mut text = format!("{}\\{}{}\"", head, bad, sep);
    for c in close.iter().rev() {
        text.push_str(c);
    }
    cx.show = text.clone();
    cx.nontrivial = depth > 0 || as_label;
    cx.label_if(as_label, "in a label");
    let mut rs: Vec<(&str, Result<(), Error>)> = vec![
        ("parse_str", parse_str(&text).map(|_| ())),
        ("parse_slice", parse_slice(text.as_bytes()).map(|_| ())),
        ("parse_reader", parse_reader(text.as_bytes()).map(|_| ())),
    ];
    for m in MERGES {
        rs.push(("value::from_str", value::from_str(&text, m).map(|_| ())));
        rs.push(("value::from_slice", value::from_slice(text.as_bytes(), m).map(|_| ())));
        rs.push(("value::from_reader", value::from_reader(text.as_bytes(), m).map(|_| ())));
    }
    for (name, r) in rs {
        quoted_escape(name, r, &text, at, &bad)?;
    }
    // as an expression
    let t = format!("{}\"\\{}{}\"", s.pick(&["", "[", "{ a = ", "(", "["]), bad, sep);
    let at = t.find('\\').unwrap() + 1;
    quoted_escape("Expression::parse", Expression::parse(&t).map(|_| ()), &t, at, &bad)
}

fn quoted_escape(name: &str, r: Result<(), Error>, text: &str, at: usize, bad: &str) -> CaseResult {
    match r {
        Ok(()) => Err(format!("{}: accepted", name)),
        Err(Error::InvalidUnicodeCodePoint(q)) => {
            ensure!(
                text[at..].starts_with(&q) && q.starts_with(bad.trim_end_matches(|c: char| !c.is_ascii_alphanumeric() && c != 'g')),
                "{}: quotes {:?} but the offending text is {:?}",
                name,
                clip(&q, 100),
                bad
            );
            let d = Error::InvalidUnicodeCodePoint(q.clone()).to_string();
            ensure!(d.contains(&q), "{}: the message {:?} does not quote it", name, d);
            Ok(())
        }
        Err(e) => Err(format!("{}: reported as {} instead of an invalid code point", name, show(&e))),
    }
}

fn kind_of_refusal(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let t = any_text(s);
    cx.show = t.clone();
    if !judged(&t) {
        cx.discard = true;
        return Ok(());
    }
    let fatal = matches!(refp::body(&t, 0), Err(refp::No::Fatal));
    match (parse_str(&t), refp::document(&t).is_some()) {
        (Ok(_), true) => {}
        (Err(e), false) => {
            cx.nontrivial = true;
            refusal("parse_str", &e, fatal)?;
        }
        _ => {
            // acceptance is decided elsewhere
            cx.discard = true;
            return Ok(());
        }
    }
    let fatal = matches!(refold::map_values(&t, 0), Err(refp::No::Fatal));
    if let (Err(e), None) = (value::from_str(&t, None), refold::document(&t)) {
        cx.nontrivial = true;
        refusal("value::from_str", &e, fatal)?;
    }
    let fatal = matches!(refp::expression(&t, 0), Err(refp::No::Fatal));
    if let (Err(e), Err(None)) = (Expression::parse(&t), refp::expression_text(&t)) {
        refusal("Expression::parse", &e, fatal)?;
    }
    Ok(())
}

/// `escape`: the first thing wrong is an escape
fn refusal(name: &str, e: &Error, escape: bool) -> CaseResult {
    match e {
        Error::ParseError(m) if !escape => {
            ensure!(!m.is_empty() && e.to_string().contains(m.as_str()), "{}: a parse error without its text", name);
            Ok(())
        }
        // an escape that is not one of Unicode may be called either
        Error::InvalidUnicodeCodePoint(q) if escape => {
            ensure!(e.to_string().contains(q.as_str()), "{}: the message does not quote the text", name);
            Ok(())
        }
        Error::ParseError(_) => Ok(()),
        e => Err(format!("{}: reported as {}", name, show(e))),
    }
}

// ------------------------------------------------------------------ reading

/// hands out some bytes, then fails
struct Failing<'a> {
    data: &'a [u8],
    kind: std::io::ErrorKind,
    msg: &'a str,
}

impl<'a> Failing<'a> {
    fn new(data: &'a [u8], after: usize, kind: std::io::ErrorKind, msg: &'a str) -> Self {
        Failing { data: &data[..after], kind, msg }
    }
}

impl<'a> std::io::Read for Failing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.data.is_empty() && !buf.is_empty() {
            return Err(std::io::Error::new(self.kind, self.msg));
        }
        let n = self.data.len().min(buf.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn reading(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    use std::io::ErrorKind as K;
    let doc = gen::doc(s).1.out.into_bytes();
    if s.bool() {
        let kinds = [K::NotFound, K::PermissionDenied, K::ConnectionReset, K::TimedOut, K::UnexpectedEof, K::BrokenPipe, K::Other, K::InvalidInput, K::WouldBlock];
        let kind = *s.pick(&kinds);
        let msg = gen::text(s, 8);
        let after = s.range(0, doc.len());
        cx.show = format!("{:?} {:?} after {} of {:?}", kind, msg, after, clip(&String::from_utf8_lossy(&doc), 300));
        cx.nontrivial = after > 0;
        let mut rs = vec![("parse_reader", parse_reader(Failing::new(&doc, after, kind, &msg)).map(|_| ()))];
        for m in MERGES {
            rs.push(("value::from_reader", value::from_reader(Failing::new(&doc, after, kind, &msg), m).map(|_| ())));
        }
        for (name, r) in rs {
            match r {
                Err(Error::IOError(e)) => {
                    same(&format!("{}: kind", name), &e.kind(), &kind)?;
                    same(&format!("{}: cause", name), &e.to_string(), &msg)?;
                    let shown = Error::IOError(e).to_string();
                    ensure!(shown.contains(&msg), "{}: the message {:?} does not name the cause", name, shown);
                }
                Err(e) => return Err(format!("{}: reported as {}", name, show(&e))),
                Ok(()) => return Err(format!("{}: succeeded", name)),
            }
        }
    } else {
        let mut b = doc.clone();
        let bad: &[&[u8]] = &[&[0xff], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0x80]];
        let at = s.range(0, b.len());
        let x = *s.pick(bad);
        b.splice(at..at, x.iter().copied());
        let want = match std::str::from_utf8(&b) {
            Err(e) => e,
            Ok(_) => {
                cx.discard = true;
                return Ok(());
            }
        };
        cx.show = format!("{:?} at {} of {:?}", x, at, clip(&String::from_utf8_lossy(&doc), 300));
        cx.nontrivial = want.valid_up_to() > 0;
        let mut rs = vec![("parse_slice", parse_slice(&b).map(|_| ()))];
        for m in MERGES {
            rs.push(("value::from_slice", value::from_slice(&b, m).map(|_| ())));
        }
        for (name, r) in rs {
            match r {
                Err(Error::InvalidUnicodeToParse(e)) => same(&format!("{}: where", name), &e, &want)?,
                Err(e) => return Err(format!("{}: reported as {}", name, show(&e))),
                Ok(()) => return Err(format!("{}: succeeded", name)),
            }
        }
        let mut rs = vec![("parse_reader", parse_reader(&b[..]).map(|_| ()))];
        for m in MERGES {
            rs.push(("value::from_reader", value::from_reader(&b[..], m).map(|_| ())));
        }
        for (name, r) in rs {
            match r {
                Err(Error::IOError(e)) => same(&format!("{}: kind", name), &e.kind(), &K::InvalidData)?,
                Err(Error::InvalidUnicodeToParse(_)) => {}
                Err(e) => return Err(format!("{}: reported as {}", name, show(&e))),
                Ok(()) => return Err(format!("{}: succeeded", name)),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ merging

fn insert_clash(s: &mut Src, m: &mut OMap, depth: usize, deepest: &mut usize) -> bool {
    // go down?
    if s.chance(2, 3) {
        let n = m.entries.len();
        if n > 0 {
            let i = s.below(n);
            let inner = match &mut m.entries[i].1 {
                OVal::Object(o) => o.last_mut(),
                OVal::Block(b) => b.entries.last_mut().map(|(_, m)| m),
                OVal::List(l) => l.iter_mut().find_map(|v| match v {
                    OVal::Object(o) => o.last_mut(),
                    _ => None,
                }),
                _ => None,
            };
            if let Some(x) = inner {
                if insert_clash(s, x, depth + 1, deepest) {
                    return true;
                }
            }
        }
    }
    if m.entries.is_empty() {
        return false;
    }
    let i = s.below(m.entries.len());
    let (k, v) = m.entries[i].clone();
    let ident = matches!(k, OKey::Ident(_));
    let simple = [OVal::Null, OVal::Int(7), OVal::Bool(true), OVal::Str("s".into()), OVal::List(vec![]), OVal::Float(1.5f64.to_bits())];
    let obj = OVal::Object(vec![OMap::un(vec![(OKey::Ident("q".into()), OVal::Int(1))])]);
    let blk = OVal::Block(OBlock { merged: false, entries: vec![(vec!["new label".into()], OMap::un(vec![]))] });
    let mut cands: Vec<OVal> = simple.to_vec();
    match &v {
        OVal::Object(_) => {
            if ident {
                cands.push(blk.clone());
                cands.push(blk);
            }
        }
        OVal::Block(b) => {
            cands.push(obj);
            // the same labels again
            let again = OVal::Block(OBlock { merged: false, entries: vec![(b.entries[0].0.clone(), OMap::un(vec![]))] });
            for _ in 0..4 {
                cands.push(again.clone());
            }
        }
        _ => {
            cands.push(obj);
            if ident {
                cands.push(blk);
            }
        }
    }
    let x = s.pick(&cands).clone();
    // the clashing twin goes anywhere
    let key = match (&x, s.bool()) {
        (OVal::Block(_), _) | (_, true) => OKey::Ident(k.text().to_string()),
        (_, false) => OKey::Str(k.text().to_string()),
    };
    let key = if ident { key } else { OKey::Str(k.text().to_string()) };
    let j = s.range(0, m.entries.len());
    m.entries.insert(j, (key, x));
    *deepest = depth;
    true
}

fn merge_conflict(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let d = s.range(1, 4);
    let mut m = gen_map(s, d, true);
    if refold::merge_map(&m).is_err() {
        return Err("the generator made a clash of its own".into());
    }
    let mut depth = 0;
    if !insert_clash(s, &mut m, 0, &mut depth) {
        cx.discard = true;
        return Ok(());
    }
    let clash = match refold::merge_map(&m) {
        Err(c) => c,
        Ok(_) => {
            cx.discard = true;
            return Ok(());
        }
    };
    let t = render(s, &m);
    cx.show = t.clone();
    cx.nontrivial = depth > 0 || !matches!(clash, Clash::Multiple(..));
    cx.label(match &clash {
        Clash::Multiple(..) => "repeated value",
        Clash::Kinds(..) => "different kinds",
        Clash::Block(_) => "identical labels",
    });
    let parsed = match value::from_str(&t, None) {
        Ok(p) => p,
        Err(e) => return Err(format!("not read at all: {}", show(&e))),
    };
    let rs: Vec<(&str, Result<MapValues, Error>)> = vec![
        ("value::from_str", value::from_str(&t, Some(MergeBehaviour::Error))),
        ("value::from_slice", value::from_slice(t.as_bytes(), Some(MergeBehaviour::Error))),
        ("value::from_reader", value::from_reader(t.as_bytes(), Some(MergeBehaviour::Error))),
        ("merge", parsed.clone().merge()),
        ("as_merged", parsed.as_merged()),
        ("new_merged", MapValues::new_merged(parsed.clone())),
        (
            "Value::merge",
            Value::Object(vec![parsed.clone()]).merge().map(|v| match v.map() {
                Ok(mut v) => v.remove(0),
                Err(_) => unreachable!(),
            }),
        ),
    ];
    for (name, r) in rs {
        let e = match r {
            Ok(_) => return Err(format!("{}: merged in spite of {:?}", name, clash)),
            Err(e) => e,
        };
        let shown = e.to_string();
        match (&e, &clash) {
            (Error::IllegalMultipleEntries { key, variant }, Clash::Multiple(k, v)) => {
                same(&format!("{}: key", name), key, k)?;
                same(&format!("{}: kind", name), variant, v)?;
                ensure!(shown.contains(k) && shown.contains(v), "{}: the message {:?} does not name them", name, shown);
            }
            (Error::ErrorMergingKeys { key, existing_variant, incoming_variant }, Clash::Kinds(k, a, b)) => {
                same(&format!("{}: key", name), key, k)?;
                same(&format!("{}: existing kind", name), existing_variant, a)?;
                same(&format!("{}: incoming kind", name), incoming_variant, b)?;
                ensure!(shown.contains(k) && shown.contains(a) && shown.contains(b), "{}: the message {:?} does not name them", name, shown);
            }
            (Error::IllegalMultipleEntries { key, variant }, Clash::Block(path)) => {
                same(&format!("{}: kind", name), variant, &"Block")?;
                // the type and every label, in order, however they are joined
                for text in [key.as_str(), shown.as_str()] {
                    let mut rest = text;
                    for part in path {
                        rest = match rest.find(part.as_str()) {
                            Some(i) => &rest[i + part.len()..],
                            None => return Err(format!("{}: {:?} does not name {:?} of {:?}", name, text, part, path)),
                        };
                    }
                }
            }
            _ => return Err(format!("{}: {:?} reported as {}", name, clash, show(&e))),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ trailing text

fn remaining(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let sh = gen::shape(s);
    let e = gen::expr(s, &sh, 2);
    let mut l = Lay::plain();
    l.no_heredoc = true;
    l.expr(s, &e);
    let expr = l.out;
    let trail = match s.below(4) {
        0 => s.pick(&[" ", "\n", "\t", " # comment", ",", "]", "}", ")", "\"", " 1", "=", "\u{a0}", "é"]).to_string(),
        1 => gen::soup(s),
        _ if s.chance(1, 6) => format!("{}{}", s.pick(&[" ", "\n", ",", " x "]), gen::long_text(s)),
        _ => gen::text(s, 10),
    };
    let t = format!("{}{}", expr, trail);
    cx.show = t.clone();
    cx.nontrivial = !trail.is_empty();
    // where the expression ends once the text is joined to it, by the grammar
    match (Expression::parse(&t), refp::expression_text(&t)) {
        (Ok(g), Ok(w)) => same("expression", &read_expr(&g), &w),
        (Err(e), Err(Some(rest))) => {
            let shown = e.to_string();
            match e {
                Error::UnexpectedRemainingInput(r) => {
                    same("remaining text", &r, &rest)?;
                    ensure!(shown.contains(&rest), "the message does not quote it: {:?}", shown);
                    Ok(())
                }
                e => Err(format!("{:?} remains but reported as {}", rest, show(&e))),
            }
        }
        (Err(Error::UnexpectedRemainingInput(r)), Err(None)) => Err(format!("no expression to remain after, but {:?} reported", r)),
        (Err(_), Err(None)) => Ok(()),
        (Ok(g), Err(_)) => Err(format!("accepted as {:?}", read_expr(&g))),
        (Err(e), Ok(_)) => Err(format!("refused: {}", show(&e))),
    }
}

// ------------------------------------------------------------------ conversions

fn error_kind(s: &mut Src) -> ErrorKind<u32> {
    match s.below(3) {
        0 => ErrorKind::Custom(s.below(3) as u32),
        1 => s
            .pick(&[
                ErrorKind::Tag,
                ErrorKind::Alt,
                ErrorKind::MapRes,
                ErrorKind::Many0,
                ErrorKind::TakeUntil,
                ErrorKind::Eof,
                ErrorKind::Char,
                ErrorKind::EscapedTransform,
                ErrorKind::TakeWhileMN,
                ErrorKind::Complete,
                ErrorKind::AlphaNumeric,
                ErrorKind::Not,
            ])
            .clone(),
        _ => ErrorKind::Custom(*s.pick(&[3u32, 4, 255, 256, 1 << 16, 1 << 31, u32::MAX, 257, 65_536 + 1])),
    }
}

/// a low-level error over inputs chosen by index
fn low_level(s: &mut Src, inputs: usize) -> NomErr<usize> {
    fn context(s: &mut Src, inputs: usize) -> Context<usize, u32> {
        if s.bool() {
            let n = s.len(5);
            Context::List((0..n).map(|_| (s.below(inputs), error_kind(s))).collect())
        } else {
            let i = s.below(inputs);
            Context::Code(i, error_kind(s))
        }
    }
    match s.weighted(&[4, 4, 1]) {
        0 => NomErr::Error(context(s, inputs)),
        1 => NomErr::Failure(context(s, inputs)),
        _ => NomErr::Incomplete(if s.bool() { Needed::Unknown } else { Needed::Size(s.below(100)) }),
    }
}

fn with<I: Clone>(e: &NomErr<usize>, inputs: &[I]) -> NomErr<I> {
    let cx = |c: &Context<usize, u32>| match c {
        Context::Code(i, k) => Context::Code(inputs[*i].clone(), k.clone()),
        Context::List(l) => Context::List(l.iter().map(|(i, k)| (inputs[*i].clone(), k.clone())).collect()),
    };
    match e {
        NomErr::Incomplete(n) => NomErr::Incomplete(*n),
        NomErr::Error(c) => NomErr::Error(cx(c)),
        NomErr::Failure(c) => NomErr::Failure(cx(c)),
    }
}

fn entries<I: Clone, E: Clone>(c: &Context<I, E>) -> Vec<(I, ErrorKind<E>)> {
    match c {
        Context::Code(i, k) => vec![(i.clone(), k.clone())],
        Context::List(l) => l.clone(),
    }
}

fn entries_ref<I, E>(c: &Context<I, E>) -> Vec<(&I, &ErrorKind<E>)> {
    match c {
        Context::Code(i, k) => vec![(i, k)],
        Context::List(l) => l.iter().map(|(i, k)| (i, k)).collect(),
    }
}

/// what a single low-level code becomes; `text` None: not printable
fn expect_kind(what: &str, got: &Error, kind: &ErrorKind<u32>, text: Option<&str>, bytes: &[u8]) -> CaseResult {
    let t = text.unwrap_or("UNKNOWN").to_string();
    match (kind, got) {
        (ErrorKind::Custom(0), Error::InvalidUnicodeCodePoint(x)) if *x == t => Ok(()),
        (ErrorKind::Custom(1), Error::InvalidUnicode(b)) if b == bytes => Ok(()),
        (ErrorKind::Custom(2), Error::InvalidNumber(x)) if *x == t => Ok(()),
        (ErrorKind::Custom(n), Error::ParseError(_)) if *n > 2 => Ok(()),
        (ErrorKind::Custom(_), _) => Err(format!("{}: {:?} became {}", what, kind, show(got))),
        (k, Error::ParseError(d)) if d.contains(k.description()) => Ok(()),
        _ => Err(format!("{}: {:?} became {}", what, kind, show(got))),
    }
}

fn check_custom<I: PartialEq + std::fmt::Debug + Clone>(
    what: &str,
    before: &NomErr<I>,
    after: &NomErr<I, Error>,
    text: &dyn Fn(&I) -> Option<String>,
    bytes: &dyn Fn(&I) -> Vec<u8>,
) -> CaseResult {
    let (a, b) = match (before, after) {
        (NomErr::Incomplete(x), NomErr::Incomplete(y)) => return same(&format!("{}: needed", what), y, x),
        (NomErr::Error(x), NomErr::Error(y)) | (NomErr::Failure(x), NomErr::Failure(y)) => (x, y),
        _ => return Err(format!("{}: severity changed", what)),
    };
    let (a, b) = (entries(a), entries_ref(b));
    same(&format!("{}: number of entries", what), &b.len(), &a.len())?;
    for ((i, k), (j, g)) in a.iter().zip(b) {
        same(&format!("{}: input", what), j, i)?;
        match g {
            ErrorKind::Custom(e) => expect_kind(what, e, k, text(i).as_deref(), &bytes(i))?,
            o => return Err(format!("{}: {:?} stayed {}", what, k, o.description())),
        }
    }
    Ok(())
}

fn check_from<I: Clone>(what: &str, before: &NomErr<I>, got: &Error, text: Option<&dyn Fn(&I) -> Option<String>>, bytes: &dyn Fn(&I) -> Vec<u8>) -> CaseResult {
    if let NomErr::Failure(c) = before {
        // one of the entries that name what went wrong, whatever the parsers around it added
        let named: Vec<_> = entries(c).into_iter().filter(|(_, k)| matches!(k, ErrorKind::Custom(0..=2))).collect();
        if !named.is_empty() {
            let mut why = String::new();
            for (i, k) in &named {
                let t = text.and_then(|f| f(i));
                match expect_kind(what, got, k, t.as_deref(), &bytes(i)) {
                    Ok(()) => return Ok(()),
                    Err(e) => why = e,
                }
            }
            return Err(why);
        }
    }
    match got {
        Error::ParseError(m) if !m.is_empty() => Ok(()),
        e => Err(format!("{}: became {}", what, show(e))),
    }
}

fn converted(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let texts: Vec<String> = (0..3).map(|_| if s.chance(1, 8) { gen::long_text(s) } else { gen::text(s, 8) }).collect();
    let mut raw: Vec<Vec<u8>> = texts.iter().map(|t| t.clone().into_bytes()).collect();
    if s.bool() {
        let i = s.below(3);
        let at = s.range(0, raw[i].len());
        raw[i].insert(at, *s.pick(&[0xffu8, 0xc3, 0x80]));
    }
    let e = low_level(s, 3);
    cx.show = format!("{:?} over {:?}", e, raw);
    if let NomErr::Error(c) | NomErr::Failure(c) = &e {
        let l = entries(c);
        cx.nontrivial = l.len() >= 2 || l.iter().any(|(_, k)| matches!(k, ErrorKind::Custom(0..=2)));
    }
    cx.label(match &e {
        NomErr::Incomplete(_) => "incomplete",
        NomErr::Error(_) => "error",
        NomErr::Failure(_) => "failure",
    });
    // texts
    let strs: Vec<&str> = texts.iter().map(|t| t.as_str()).collect();
    let cs: Vec<CompleteStr> = strs.iter().map(|t| CompleteStr(t)).collect();
    let es = with(&e, &strs);
    let ec = with(&e, &cs);
    let t1 = |i: &&str| Some(i.to_string());
    let b1 = |i: &&str| i.as_bytes().to_vec();
    let t2 = |i: &CompleteStr| Some(i.0.to_string());
    let b2 = |i: &CompleteStr| i.0.as_bytes().to_vec();
    check_custom("make_custom_err_str of &str", &es, &Error::make_custom_err_str(es.clone()), &t1, &b1)?;
    check_custom("make_custom_err_str", &ec, &Error::make_custom_err_str(ec.clone()), &t2, &b2)?;
    check_custom("make_custom_err_bytes of text", &ec, &Error::make_custom_err_bytes(ec.clone()), &t2, &b2)?;
    check_from("from_err_str of &str", &es, &Error::from_err_str(&es), Some(&t1), &b1)?;
    check_from("from_err_str", &ec, &Error::from_err_str(&ec), Some(&t2), &b2)?;
    check_from("from_err_bytes of text", &ec, &Error::from_err_bytes(&ec), Some(&t2), &b2)?;
    deserializer_errors(s, &ec)?;
    // bytes, perhaps not text
    let slices: Vec<&[u8]> = raw.iter().map(|r| &r[..]).collect();
    let cb: Vec<CompleteByteSlice> = slices.iter().map(|r| CompleteByteSlice(r)).collect();
    let es = with(&e, &slices);
    let ec = with(&e, &cb);
    let t3 = |i: &&[u8]| std::str::from_utf8(i).ok().map(|x| x.to_string());
    let b3 = |i: &&[u8]| i.to_vec();
    let t4 = |i: &CompleteByteSlice| std::str::from_utf8(i.0).ok().map(|x| x.to_string());
    let b4 = |i: &CompleteByteSlice| i.0.to_vec();
    check_custom("make_custom_err_bytes of &[u8]", &es, &Error::make_custom_err_bytes(es.clone()), &t3, &b3)?;
    check_custom("make_custom_err_bytes", &ec, &Error::make_custom_err_bytes(ec.clone()), &t4, &b4)?;
    check_from("from_err_bytes of &[u8]", &es, &Error::from_err_bytes(&es), Some(&t3), &b3)?;
    check_from("from_err_bytes", &ec, &Error::from_err_bytes(&ec), Some(&t4), &b4)?;
    // own conversion
    let t5 = |i: &&[u8]| if i.len() % 2 == 0 { Some(format!("<{}>", i.len())) } else { None };
    check_custom("make_custom_error", &es, &Error::make_custom_error(es.clone(), t5), &t5, &b3)
}

/// The deserializer wraps what it was given: nothing of kind or message is lost on the way
fn deserializer_errors(s: &mut Src, ec: &NomErr<CompleteStr>) -> CaseResult {
    use ferrous_chloride::serde::de::{Compat, Error as DeError};
    use serde::de::Error as _;
    let inner = |what: &str, e: DeError, want: &Error| -> CaseResult {
        let text = e.to_string();
        ensure!(text == format!("HCL parse error: {}", want), "{}: displayed as {:?} for {}", what, text, show(want));
        match e {
            DeError::ParseError(x) => same(what, &show(&x), &show(want)),
            e => Err(format!("{}: {:?} for {}", what, e, show(want))),
        }
    };
    let want = Error::from_err_str(ec);
    inner("low level error", DeError::from(ec.clone()), &want)?;
    inner("library error", DeError::from(Error::from_err_str(ec)), &want)?;
    inner("library error through the serde type", DeError::from(Compat::from(Error::from_err_str(ec))), &want)?;
    let c = Compat::from(Error::from_err_str(ec));
    same("display of the serde type", &c.to_string(), &format!("HCL parse error: {}", want))?;
    same("display through deref", &(*c).to_string(), &c.to_string())?;

    let t = gen::text(s, 6);
    let c = Compat::custom(&t);
    same("custom message", &c.to_string(), &t)?;
    match DeError::from(c) {
        DeError::Custom(x) => same("custom message", &x, &t)?,
        e => return Err(format!("custom error became {:?}", e)),
    }
    let lit = s.pick(&["", "x", "300", "-", "-129"]).to_string();
    if let Err(e) = lit.parse::<i8>() {
        match DeError::from(e.clone()) {
            DeError::ParseIntError(x) => same("integer error", &x, &e)?,
            e => return Err(format!("integer error became {:?}", e)),
        }
    }
    if let Err(e) = lit.replace(|c: char| c.is_numeric(), "z").parse::<f64>() {
        match DeError::from(e.clone()) {
            DeError::ParseFloatError(x) => same("float error", &x, &e)?,
            e => return Err(format!("float error became {:?}", e)),
        }
    }
    Ok(())
}

fn macros(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    use ferrous_chloride::parser::string::string_literal;
    let t = match s.below(3) {
        0 => format!("\"{}\\{}z\"", gen::text(s, 4).replace(['\\', '"', '\n', '\r'], ""), bad_escape_text(s)),
        1 => {
            let mut l = Lay::plain();
            let x = gen::text(s, 6);
            l.quoted(s, &x, false);
            l.out
        }
        _ => any_text(s),
    };
    cx.show = t.clone();
    let i = CompleteStr(&t);
    let plain = string_literal(i);
    cx.nontrivial = plain.is_err();
    let a = map_err_str!(i, call!(string_literal));
    let b = map_err!(i, call!(string_literal));
    for (what, r) in [("map_err_str!", a), ("map_err!", b)] {
        match (&plain, r) {
            (Ok(x), Ok(y)) => same(what, &y, x)?,
            (Err(x), Err(y)) => {
                let t2 = |i: &CompleteStr| Some(i.0.to_string());
                let b2 = |i: &CompleteStr| i.0.as_bytes().to_vec();
                check_custom(what, x, &y, &t2, &b2)?
            }
            _ => return Err(format!("{}: success and failure swapped", what)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ errors of deserialization

use super::serde_props::Dyn;
use ferrous_chloride::serde::de::Error as DeError;
use ferrous_chloride::serde::from_str;
use serde::de::{Deserialize, IgnoredAny};

#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct Three(IgnoredAny, IgnoredAny, IgnoredAny);

type I = IgnoredAny;

/// where a failing expression stands, and the type that leads there
fn place(s: &mut Src, expr: &str) -> (usize, String) {
    let w = s.below(6);
    let t = match w {
        0 => expr.to_string(),
        1 => format!("[[], {}]", expr),
        2 => format!("{{ k = {} }}", expr),
        3 => format!("a = {}\n", expr),
        4 => format!("b {{\n a = {}\n}}\n", expr),
        _ => format!("a = [{}]\n", expr),
    };
    (w, t)
}

fn read_at<'a, T: Deserialize<'a>>(w: usize, t: &'a str) -> Result<(), DeError> {
    use std::collections::HashMap as M;
    fn e<'a, T: Deserialize<'a>>(t: &'a str) -> Result<(), DeError> {
        T::deserialize(Expression::parse(t)?).map(|_| ()).map_err(DeError::from)
    }
    /// an empty list, or the one that fails
    struct Second<T>(std::marker::PhantomData<T>);
    impl<'de, T: Deserialize<'de>> Deserialize<'de> for Second<T> {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct V<T>(std::marker::PhantomData<T>);
            impl<'de, T: Deserialize<'de>> serde::de::Visitor<'de> for V<T> {
                type Value = ();
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("two elements")
                }
                fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
                    a.next_element::<IgnoredAny>()?;
                    a.next_element::<T>()?;
                    Ok(())
                }
            }
            d.deserialize_seq(V::<T>(std::marker::PhantomData))?;
            Ok(Second(std::marker::PhantomData))
        }
    }
    match w {
        0 => e::<T>(t),
        1 => e::<Second<T>>(t),
        2 => e::<M<String, T>>(t),
        3 => from_str::<M<String, T>>(t).map(|_| ()),
        4 => from_str::<M<String, M<String, T>>>(t).map(|_| ()),
        _ => from_str::<M<String, Vec<T>>>(t).map(|_| ()),
    }
}

fn deserializing(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    match s.below(5) {
        0 => tuple_lengths(s, cx),
        1 => repeated_entry(s, cx),
        2 => repeated_name(s, cx),
        3 => out_of_range(s, cx),
        _ => passed_on(s, cx),
    }
}

fn tuple_lengths(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let sh = gen::shape(s);
    let actual = s.below(8);
    let items: Vec<MExpr> = (0..actual).map(|_| gen::expr(s, &sh, 1)).collect();
    let mut l = Lay::plain();
    l.expr(s, &MExpr::Tuple(items));
    let (w, t) = place(s, &l.out);
    cx.show = t.clone();
    cx.label("tuple length");
    cx.nontrivial = w > 0;
    let all: [(usize, &str, Result<(), DeError>); 7] = [
        (1, "tuple", read_at::<(I,)>(w, &t)),
        (2, "tuple", read_at::<(I, I)>(w, &t)),
        (3, "tuple", read_at::<(I, I, I)>(w, &t)),
        (3, "tuple struct", read_at::<Three>(w, &t)),
        (4, "array", read_at::<[I; 4]>(w, &t)),
        (5, "tuple", read_at::<(I, I, I, I, I)>(w, &t)),
        (6, "array", read_at::<[I; 6]>(w, &t)),
    ];
    for (want, what, r) in all {
        match r {
            Ok(()) => ensure!(want == actual, "{} elements were read into a {} of {}", actual, what, want),
            Err(e) => {
                ensure!(want != actual, "{} of {}: {}", what, want, e);
                let d = e.to_string();
                match e {
                    DeError::InvalidTupleLength { expected, actual: a } => {
                        ensure!((expected, a) == (want, actual), "{} elements for a {} of {}: reported as {} for {}", actual, what, want, a, expected)
                    }
                    e => return Err(format!("{} elements for a {} of {}: {:?}", actual, what, want, e)),
                }
                ensure!(d.contains(&want.to_string()) && d.contains(&actual.to_string()), "message {:?} for {} and {}", d, want, actual);
            }
        }
    }
    Ok(())
}

/// distinct names, one of which is then used again
fn names_with_one_repeated(s: &mut Src, bare: bool) -> (Vec<String>, String) {
    let n = s.range(1, 4);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let k = if bare || s.bool() { gen::ident(s) } else { gen::text(s, 5) };
        if !v.contains(&k) {
            v.push(k);
        }
    }
    let k = s.pick(&v).clone();
    let times = s.range(1, 2);
    for _ in 0..times {
        let at = s.range(0, v.len());
        v.insert(at, k.clone());
    }
    (v, k)
}

fn repeated_entry(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let (names, key) = names_with_one_repeated(s, false);
    let mut entries = vec![];
    for n in &names {
        let ident = !n.is_empty() && n.chars().all(|c| c.is_ascii_alphabetic()) && s.bool();
        let mut l = Lay::plain();
        l.quoted(s, n, false);
        let k = if ident { n.clone() } else { l.out };
        entries.push(format!("{} = {}", k, s.pick(&["1", "null", "[]", "{}"])));
    }
    let (w, t) = place(s, &format!("{{ {} }}", entries.join(", ")));
    cx.show = t.clone();
    cx.label("repeated entry");
    cx.nontrivial = w > 0;
    use std::collections::HashMap as M;
    for (what, r) in [("map", read_at::<M<String, I>>(w, &t)), ("anything", read_at::<Dyn>(w, &t)), ("pairs", read_at::<M<std::borrow::Cow<str>, I>>(w, &t))] {
        match r {
            Err(DeError::ObjectDuplicateKey(k)) => same(&format!("key named, read as {}", what), &k, &key)?,
            Err(e) => return Err(format!("{}: {:?} for a repeated key", what, e)),
            Ok(()) => return Err(format!("{}: accepted", what)),
        }
    }
    Ok(())
}

fn repeated_name(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let (names, key) = names_with_one_repeated(s, true);
    // all attributes, or one attribute and blocks of the same name
    let with_blocks = s.bool();
    let mut one_attr = false;
    let mut t = String::new();
    let total = names.iter().filter(|n| **n == key).count();
    let mut nth = 0;
    let attr_at = s.below(total);
    for n in &names {
        let attr = if *n == key && with_blocks {
            nth += 1;
            nth - 1 == attr_at
        } else {
            *n == key || s.bool()
        };
        one_attr |= attr && *n == key;
        t.push_str(&if attr { format!("{} = {}\n", n, s.pick(&["1", "null", "[]"])) } else { format!("{} {{\n}}\n", n) });
    }
    ensure!(one_attr, "generator: no attribute");
    let deep = s.bool();
    if deep {
        t = format!("outer {{\n{}}}\n", t);
    }
    cx.show = t.clone();
    cx.label("repeated name");
    cx.nontrivial = deep;
    use std::collections::HashMap as M;
    let r = if deep { from_str::<M<String, M<String, I>>>(&t).map(|_| ()) } else { from_str::<M<String, I>>(&t).map(|_| ()) };
    for r in [r, from_str::<Dyn>(&t).map(|_| ())] {
        match r {
            Err(DeError::BodyDuplicateKey(k)) => same("name", &k, &key)?,
            Err(e) => return Err(format!("{:?} for a repeated name", e)),
            Ok(()) => return Err("accepted".to_string()),
        }
    }
    Ok(())
}

fn out_of_range(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let neg = s.bool();
    let n = s.range(20, 60);
    let mut d = format!("{}{}", s.range(2, 9), gen::digits(s, n - 1, n - 1));
    if s.chance(1, 4) {
        d = if neg { "9223372036854775809" } else { "18446744073709551616" }.to_string();
    }
    let lit = format!("{}{}", if neg { "-" } else { "" }, d);
    let (w, t) = place(s, &lit);
    cx.show = t.clone();
    cx.label("out of range");
    cx.nontrivial = w > 0;
    let want = if neg { lit.parse::<i64>().map(|_| ()).unwrap_err() } else { lit.parse::<u64>().map(|_| ()).unwrap_err() };
    for (what, r) in [
        ("i64", read_at::<i64>(w, &t)),
        ("u64", read_at::<u64>(w, &t)),
        ("u8", read_at::<u8>(w, &t)),
        ("anything", read_at::<Dyn>(w, &t)),
    ] {
        match r {
            Err(DeError::ParseIntError(e)) => same(what, &e, &want)?,
            Err(e) => return Err(format!("{}: {:?} for an integer out of range", what, e)),
            Ok(()) => return Err(format!("{}: accepted", what)),
        }
    }
    Ok(())
}

/// what the parser says of a text is what deserializing it says
fn passed_on(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let t = if s.chance(1, 4) {
        format!("{}a = \"\\{}z\"\n", s.pick(&["", "ok = 1\n", "b {\n}\n"]), bad_escape_text(s))
    } else {
        any_text(s)
    };
    cx.show = t.clone();
    cx.label("passed on");
    let want = parse_str(&t).map(|_| ()).map_err(|e| show(&e));
    cx.nontrivial = want.is_err();
    let got = match from_str::<IgnoredAny>(&t) {
        Ok(_) => Ok(()),
        Err(DeError::ParseError(e)) => Err(show(&e)),
        Err(e) => return Err(format!("{:?} instead of a parse error", e)),
    };
    same("through from_str", &got, &want)?;
    let got = match ferrous_chloride::serde::de::Deserializer::from_str(&t) {
        Ok(_) => Ok(()),
        Err(DeError::ParseError(e)) => Err(show(&e)),
        Err(e) => return Err(format!("{:?} instead of a parse error", e)),
    };
    same("through the deserializer", &got, &want)
}
