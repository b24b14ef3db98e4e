//! C01 C02 C03 C04 C11 C27 C28: the syntax-tree parser.
use super::*;
use crate::ensure;
use crate::gen::{self, *};
use crate::model::*;
use crate::refp::{self, No, R};
use crate::unicode;
use ferrous_chloride::parser::block::BlockLabel;
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::parser::{self as p, Attribute, Block, Body, Expression};
use ferrous_chloride::value;
use ferrous_chloride::{parse_reader, parse_slice, parse_str, AsOwned, Error, MergeBehaviour};
use nom::types::CompleteStr;
use nom::IResult;
use std::borrow::Cow;

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C01",
            vec![
                check("document", 60_000, 1_500_000, "abstract body -> random legal layout -> parse_str -> same body; non-trivial: at least 3 nodes", c01_document),
                check("expression", 60_000, 1_500_000, "abstract expression -> random legal layout -> Expression::parse -> same expression; non-trivial: at least 2 nodes", c01_expression),
                check("deep", 1_500, 30_000, "blocks, tuples, objects and parentheses nested 20 to 120 levels or bodies of 50 to 400 elements; all count as non-trivial", c01_deep),
            ],
        ),
        prop(
            "C02",
            vec![
                check("mutated", 90_000, 3_000_000, "legal document with 0 to 4 random edits, parse_str against the reference parser (acceptance and tree); non-trivial: edited text", c02_mutated),
                check("soup", 60_000, 2_000_000, "up to 14 random grammar tokens; non-trivial: 3 or more tokens", c02_soup),
                check("broken", 60_000, 1_500_000, "legal document with one structural token deleted, doubled or replaced; non-trivial: all", c02_broken),
                check("expression", 60_000, 2_000_000, "stand-alone expression text with 0 to 3 edits and trailing text, Expression::parse against the reference; non-trivial: edited text", c02_expression),
            ],
        ),
        Prop {
            id: "C03",
            checks: vec![
                check("text", 40_000, 1_200_000, "random text, mutated documents and token soup through every public entry point and sub-parser; non-trivial: at least 3 bytes", c03_text),
                check("bytes", 30_000, 800_000, "random bytes and documents with corrupted bytes through the byte and stream entry points; non-trivial: invalid UTF-8", c03_bytes),
            ],
            probes: vec![
                Probe { key: "deep-tuple", what: "200000 unclosed '[' handed to parse_str", f: || probe_deep("a = ", "["), isolated: true },
                Probe { key: "deep-block", what: "200000 nested block openings handed to value::from_str", f: || probe_deep_old("a {\n"), isolated: true },
            ],
            assumptions: vec!["inputs nest at most a few hundred levels, except in the two listed probes"],
        },
        prop(
            "C04",
            vec![
                check("layouts", 40_000, 1_000_000, "one body rendered in two independent layouts (comments, blank lines, CRLF, tabs, optional commas, final newline); non-trivial: texts differ", c04_layouts),
                check("insert", 40_000, 1_000_000, "layout inserted into a plainly rendered document at a token boundary found by the reference; non-trivial: text changed", c04_insert),
                check("comments", 40_000, 1_000_000, "comment and whitespace recognisers on generated comment text; non-trivial: a comment was recognised", c04_comments),
            ],
        ),
        prop(
            "C11",
            vec![
                check("tree", 40_000, 1_000_000, "as_owned of a parsed tree after its source is dropped; non-trivial: at least 3 nodes", c11_tree),
                check("value", 40_000, 1_000_000, "as_owned of a value tree, merged and unmerged; non-trivial: at least 3 nodes", c11_value),
                check("pieces", 30_000, 600_000, "as_owned of labels, keys, numbers, options, maps and one-or-many pieces; all count", c11_pieces),
            ],
        ),
        prop(
            "C27",
            vec![
                check("construct", 60_000, 2_000_000, "each public sub-parser on a construct of some kind followed by random text, against the reference (value and rest); non-trivial: the reference accepts", c27_construct),
                check("random", 60_000, 2_000_000, "each public sub-parser on token soup, against the reference; non-trivial: the reference accepts", c27_random),
            ],
        ),
        prop(
            "C28",
            vec![
                check("tree", 40_000, 1_000_000, "tree built through constructors against the parse of its rendering, and against a tree altered in one place; non-trivial: at least 3 nodes", c28_tree),
                check("value", 30_000, 800_000, "value tree built through constructors and conversions against the parse of its rendering; non-trivial: at least 2 entries", c28_value),
            ],
        ),
    ]
}

// ------------------------------------------------------------------ C01

pub fn disp(e: &Error) -> String {
    clip(&format!("{}", e), 200)
}

fn c01_document(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (b, l) = gen::doc(s);
    c.show = l.out.clone();
    c.nontrivial_if(body_nodes(&b) >= 3);
    c.label_if(l.comments > 0, "comments");
    c.label_if(l.heredocs > 0, "heredoc");
    c.label_if(l.parens > 0, "parenthesised");
    c.label_if(body_depth(&b) >= 4, "depth>=4");
    c.label_if(l.eol_style > 0, "crlf");
    match parse_str(&l.out) {
        Ok(t) => same("parse_str", &read_body(&t), &b),
        Err(e) => Err(format!("legal document rejected: {}", disp(&e))),
    }
}

fn c01_expression(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let sh = gen::shape(s);
    let d = s.range(0, sh.depth + 1);
    let e = gen::expr(s, &sh, d);
    let mut l = Lay::new(s);
    let h = l.expr(s, &e);
    if h {
        // a heredoc must be followed by a line break, which a stand-alone expression cannot hold
        l = Lay::plain();
        l.no_heredoc = true;
        l.expr(s, &e);
    }
    c.show = l.out.clone();
    c.nontrivial_if(expr_nodes(&e) >= 2);
    match Expression::parse(&l.out) {
        Ok(t) => same("Expression::parse", &read_expr(&t), &e),
        Err(e) => Err(format!("legal expression rejected: {}", disp(&e))),
    }
}

fn c01_deep(s: &mut Src, c: &mut Ctx) -> CaseResult {
    c.nontrivial = true;
    let sh = Shape { depth: 2, width: 2, obj_expr_keys: false, old: false };
    let body: MBody = match s.below(3) {
        0 => {
            // deep blocks
            let n = s.range(20, 60 * s.size);
            let mut b: MBody = vec![MElem::Attr("x".into(), gen::expr(s, &sh, 1))];
            for i in 0..n {
                let ls = s.len(2);
                let labels = (0..ls).map(|_| gen::label(s)).collect();
                let mut outer: MBody = vec![];
                if s.chance(1, 4) {
                    outer.push(MElem::Attr(format!("k{}", i), gen::expr(s, &sh, 1)));
                }
                outer.push(MElem::Block(MBlock { ty: gen::small_name(s), labels, body: b }));
                if s.chance(1, 4) {
                    outer.push(MElem::Attr("z".into(), gen::expr(s, &sh, 1)));
                }
                b = outer;
            }
            c.label("deep blocks");
            b
        }
        1 => {
            let n = s.range(20, 60 * s.size);
            let mut e = gen::expr(s, &sh, 1);
            for _ in 0..n {
                let side = gen::expr(s, &sh, 0);
                e = match s.below(4) {
                    0 => MExpr::Tuple(vec![e]),
                    1 => MExpr::Tuple(vec![side, e]),
                    2 => MExpr::Object(vec![(MKey::Ident(gen::ident(s)), e)]),
                    _ => MExpr::Object(vec![(MKey::Ident("a".into()), e), (MKey::Ident("b".into()), side)]),
                };
            }
            c.label("deep expression");
            vec![MElem::Attr("x".into(), e)]
        }
        _ => {
            let n = s.range(50, 200 * s.size);
            c.label("long body");
            (0..n)
                .map(|_| {
                    if s.chance(1, 4) {
                        MElem::Block(MBlock { ty: gen::small_name(s), labels: vec![], body: gen::body(s, &sh, 1) })
                    } else {
                        MElem::Attr(gen::ident(s), gen::expr(s, &sh, 1))
                    }
                })
                .collect()
        }
    };
    let mut l = Lay::new(s);
    l.document(s, &body);
    c.show = clip(&l.out, 200);
    match parse_str(&l.out) {
        Ok(t) => same("parse_str", &read_body(&t), &body),
        Err(e) => Err(format!("legal document rejected: {}", disp(&e))),
    }
}

// ------------------------------------------------------------------ C02

pub fn judged(t: &str) -> bool {
    !t.chars().any(unicode::unsure)
}

fn agree(text: &str) -> CaseResult {
    let want = refp::document(text);
    let got = parse_str(text);
    match (&got, &want) {
        (Ok(t), Some(w)) => {
            if refp::tab_indented_heredoc(text) {
                return Ok(());
            }
            same("tree", &read_body(t), w)
        }
        (Err(_), None) => Ok(()),
        (Ok(t), None) => Err(format!("accepted a text the grammar does not derive, as {}", clip(&format!("{:?}", read_body(t)), 400))),
        (Err(e), Some(w)) => Err(format!("rejected ({}) a text of the grammar: {}", disp(e), clip(&format!("{:?}", w), 400))),
    }
}

fn c02_mutated(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (_, l) = gen::doc(s);
    let mut t = l.out;
    let n = s.range(0, 4);
    if n > 0 {
        let other = if s.chance(1, 5) { Some(gen::doc(s).1.out) } else { None };
        for _ in 0..n {
            gen::edit(s, &mut t, other.as_deref());
        }
        c.nontrivial = true;
    }
    c.show = t.clone();
    if !judged(&t) {
        c.discard = true;
        return Ok(());
    }
    c.label_if(refp::document(&t).is_some(), "accepted");
    agree(&t)
}

fn c02_soup(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = gen::soup(s);
    c.show = t.clone();
    c.nontrivial_if(t.len() > 4);
    c.label_if(refp::document(&t).is_some(), "accepted");
    agree(&t)
}

fn c02_broken(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (_, l) = gen::doc(s);
    let mut t = l.out;
    c.nontrivial = true;
    let spots: Vec<(usize, char)> = t.char_indices().filter(|(_, ch)| "{}[]()=,\"\n\r#/*<-\\".contains(*ch)).collect();
    if spots.is_empty() {
        c.discard = true;
        return Ok(());
    }
    let (i, ch) = *s.pick(&spots);
    match s.below(4) {
        0 => {
            t.remove(i);
        }
        1 => t.insert(i, ch),
        2 => {
            t.remove(i);
            let r = *s.pick(&["{", "}", "[", "]", "(", ")", "=", ",", "\"", "\n", " ", ";", ":"]);
            t.insert_str(i, r);
        }
        _ => {
            let r = *s.pick(&["{", "}", "[", "]", "(", ")", "=", ",", "\"", "\n", " ", "x", "1"]);
            t.insert_str(i + ch.len_utf8(), r);
        }
    }
    c.show = t.clone();
    if !judged(&t) {
        c.discard = true;
        return Ok(());
    }
    c.label_if(refp::document(&t).is_some(), "accepted");
    agree(&t)
}

fn c02_expression(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let sh = gen::shape(s);
    let d = s.range(0, sh.depth);
    let mut t = if s.chance(1, 5) {
        gen::soup(s)
    } else {
        let e = gen::expr(s, &sh, d);
        let mut l = Lay::new(s);
        if l.expr(s, &e) && s.bool() {
            l.eol(s);
        }
        l.out
    };
    let n = s.below(4);
    for _ in 0..n {
        gen::edit(s, &mut t, None);
    }
    if s.chance(1, 5) {
        t.push_str(s.pick(&[" ", "\n", ",", "x", "1", "\"", ")", "]", "}", " = 1", "\n\n", "# c\n"]));
    }
    c.show = t.clone();
    c.nontrivial_if(n > 0);
    if !judged(&t) {
        c.discard = true;
        return Ok(());
    }
    let want = refp::expression_text(&t);
    c.label_if(want.is_ok(), "accepted");
    match (Expression::parse(&t), want) {
        (Ok(g), Ok(w)) => {
            if refp::tab_indented_heredoc(&t) {
                return Ok(());
            }
            same("expression", &read_expr(&g), &w)
        }
        (Err(Error::UnexpectedRemainingInput(r)), Err(Some(w))) => same("remaining text", &r, &w),
        (Err(_), Err(Some(w))) => Err(format!("expected the rest {:?} to be reported", w)),
        (Err(_), Err(None)) => Ok(()),
        (Ok(g), Err(_)) => Err(format!("accepted as {:?}", read_expr(&g))),
        (Err(e), Ok(w)) => Err(format!("rejected ({}) although it denotes {:?}", disp(&e), w)),
    }
}

// ------------------------------------------------------------------ C03

fn look(e: &Error) {
    let _ = format!("{} {:?} {:#}", e, e, e);
}

pub fn any_text(s: &mut Src) -> String {
    match s.weighted(&[40, 30, 20, 5, 10]) {
        0 => {
            let mut t = gen::doc(s).1.out;
            for _ in 0..s.range(0, 6) {
                gen::edit(s, &mut t, None);
            }
            t
        }
        1 => gen::soup(s),
        2 => {
            let n = s.len(30);
            (0..n).map(|_| gen::ch(s)).collect()
        }
        3 => {
            // something, then much more of something else
            let mut t = match s.below(3) {
                0 => gen::soup(s),
                1 => s.pick(&["1", "\"a\"", "a = 1\n", "[", "a = \"", "a = <<E\n", "# ", "a", "b \"", "[1, 2]", "{ a = 1 }", "a {\n", "\"\\u"]).to_string(),
                _ => String::new(),
            };
            t.push_str(s.pick(&[" ", "", "\n", " = "]));
            t.push_str(&gen::long_text(s));
            t.push_str(s.pick(&["", "\"", "\n", "\nE\n"]));
            t
        }
        _ => {
            let mut t = "a = <<-EOF\n".to_string();
            t.push_str(&gen::text(s, 20));
            t.push_str(s.pick(&["\nEOF\n", "\n    EOF\n", "\n  EOF", "\n\tEOF\n", "EOF\n", "\r\n  EOF\r\n"]));
            t
        }
    }
}

/// every public text entry point; returns Err on an internal state leaking out
fn drive(t: &str) -> CaseResult {
    if let Err(e) = parse_str(t) {
        look(&e)
    }
    if let Err(e) = Expression::parse(t) {
        look(&e)
    }
    for m in [None, Some(MergeBehaviour::Error)] {
        if let Err(e) = value::from_str(t, m) {
            look(&e)
        }
    }
    if let Err(e) = ferrous_chloride::serde::from_str::<super::serde_props::Any>(t) {
        let _ = format!("{} {:?}", e, e);
    }
    for (name, lib, _) in SUBS {
        if let Got::Incomplete = lib(t) {
            return Err(format!("{} answered Incomplete", name));
        }
    }
    Ok(())
}

fn c03_text(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = any_text(s);
    c.show = t.clone();
    c.nontrivial_if(t.len() >= 3);
    drive(&t)?;
    // every suffix of a short text as well, as an editor would see it
    if t.len() < 40 {
        for (i, _) in t.char_indices() {
            let _ = parse_str(&t[i..]);
            let _ = value::from_str(&t[..i], None);
        }
    }
    Ok(())
}

fn c03_bytes(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut b = if s.bool() {
        let n = s.len(40);
        (0..n).map(|_| s.below(256) as u8).collect::<Vec<u8>>()
    } else {
        any_text(s).into_bytes()
    };
    for _ in 0..s.below(3) {
        let i = s.below(b.len() + 1);
        let x = *s.pick(&[0x80u8, 0xc3, 0xe2, 0xf0, 0xff, 0xed, 0xa0, 0, b'"', b'\n']);
        if i < b.len() && s.bool() {
            b[i] = x;
        } else {
            b.insert(i, x);
        }
    }
    let bad = std::str::from_utf8(&b).is_err();
    c.show = format!("{:?}", String::from_utf8_lossy(&b));
    c.nontrivial_if(bad);
    let rs = [
        parse_slice(&b).map(|_| ()),
        parse_reader(&b[..]).map(|_| ()),
        value::from_slice(&b, None).map(|_| ()),
        value::from_slice(&b, Some(MergeBehaviour::Error)).map(|_| ()),
        value::from_reader(&b[..], None).map(|_| ()),
        value::from_reader(&b[..], Some(MergeBehaviour::Error)).map(|_| ()),
    ];
    for r in &rs {
        if let Err(e) = r {
            look(e)
        } else {
            ensure!(!bad, "accepted invalid UTF-8");
        }
    }
    Ok(())
}

fn probe_deep(lead: &str, open: &str) -> Option<String> {
    let t = format!("{}{}", lead, open.repeat(200_000));
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || parse_str(&t).is_ok()).unwrap().join();
    match r {
        Ok(false) => None,
        Ok(true) => Some("accepted an unclosed document".into()),
        Err(_) => Some("panicked".into()),
    }
}

fn probe_deep_old(open: &str) -> Option<String> {
    let t = open.repeat(200_000);
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || value::from_str(&t, None).is_ok()).unwrap().join();
    match r {
        Ok(false) => None,
        Ok(true) => Some("accepted an unclosed document".into()),
        Err(_) => Some("panicked".into()),
    }
}

// ------------------------------------------------------------------ C04

fn c04_layouts(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let sh = gen::shape(s);
    let d = s.range(1, sh.depth);
    let b = gen::body(s, &sh, d);
    let mut l1 = Lay::plain();
    l1.document(s, &b);
    let mut l2 = Lay::new(s);
    l2.noise = 2;
    l2.document(s, &b);
    c.show = l2.out.clone();
    c.nontrivial_if(l1.out != l2.out);
    c.label_if(l2.comments > 0, "comments");
    c.label_if(l2.eol_style > 0, "crlf");
    let a = parse_str(&l1.out).map_err(|e| format!("plain layout rejected: {}", disp(&e)))?;
    let z = parse_str(&l2.out).map_err(|e| format!("layout rejected: {}", disp(&e)))?;
    same("layouts disagree", &read_body(&z), &read_body(&a))?;
    ensure!(a == z, "trees of two layouts compare unequal");
    Ok(())
}

/// Positions of a plain rendering at which layout may be inserted, by kind, found by the renderer's own markers.
fn c04_insert(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let sh = gen::shape(s);
    let b = gen::body(s, &sh, 2);
    let mut l = Lay::plain();
    l.no_heredoc = s.bool();
    l.document(s, &b);
    let t = l.out;
    let want = parse_str(&t).map_err(|e| format!("plain layout rejected: {}", disp(&e)))?;
    // candidate insertions; the reference says which of them leave the document legal and equal
    let mut n = t.clone();
    let k = s.range(1, 3);
    for _ in 0..k {
        let mut i = s.below(n.len() + 1);
        while !n.is_char_boundary(i) {
            i -= 1;
        }
        let x = match s.below(10) {
            0 => " ".to_string(),
            1 => "\t".to_string(),
            2 => "/* c */".to_string(),
            3 => "# c\n".to_string(),
            4 => "// c\n".to_string(),
            5 => "\n".to_string(),
            6 => "\r\n".to_string(),
            7 => format!("/*{}*/", gen::text(s, 5).replace('*', "+")),
            8 => format!("{}{}\n", s.pick(&["#", "//"]), gen::text(s, 5).replace(['\n', '\r'], " ")),
            _ => ",".to_string(),
        };
        n.insert_str(i, &x);
    }
    if s.chance(1, 4) {
        n = n.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    c.show = n.clone();
    if !judged(&n) || refp::tab_indented_heredoc(&n) {
        c.discard = true;
        return Ok(());
    }
    let r = refp::document(&n);
    let before = read_body(&want);
    if r.as_ref() == Some(&before) {
        c.nontrivial_if(n != t);
        c.label("meaning preserved");
        let got = parse_str(&n).map_err(|e| format!("layout rejected: {}", disp(&e)))?;
        same("layout changed the meaning", &read_body(&got), &before)?;
    } else {
        // the insertion fell inside a string, name or number, or where no layout is allowed
        c.label("not a layout position");
        let got = parse_str(&n).ok().map(|g| read_body(&g));
        ensure!(got == r, "inserted text: got {} expected {}", clip(&format!("{:?}", got), 300), clip(&format!("{:?}", r), 300));
    }
    Ok(())
}

fn c04_comments(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut t = String::new();
    for _ in 0..s.range(1, 4) {
        match s.below(8) {
            0 => t.push_str("#"),
            1 => t.push_str("//"),
            2 => t.push_str("/*"),
            3 => t.push_str("*/"),
            4 => t.push_str(s.pick(&["\n", "\r\n", "\r", " ", "\t"])),
            5 => t.push_str(&format!("/*{}*/", gen::text(s, 6))),
            6 => t.push_str(&format!("{}{}{}", s.pick(&["#", "//"]), gen::text(s, 6), s.pick(&["\n", "\r\n", "\r", ""]))),
            _ => t.push_str(&gen::text(s, 4)),
        }
    }
    c.show = t.clone();
    for (name, lib, rf) in SUBS.iter().take(7) {
        let (g, w) = (lib(&t), rf(&t));
        c.nontrivial_if(matches!(w, Got::Ok(_, n) if n < t.len()));
        ensure!(g == w, "{}: got {:?} expected {:?}", name, g, w);
    }
    Ok(())
}

// ------------------------------------------------------------------ C27

#[derive(Debug, PartialEq, Clone)]
pub enum Got {
    /// value and number of bytes left
    Ok(String, usize),
    No,
    Incomplete,
}

fn l<O, F: FnOnce(O) -> String>(r: IResult<CompleteStr, O>, f: F) -> Got {
    match r {
        Ok((rest, o)) => Got::Ok(f(o), rest.0.len()),
        Err(nom::Err::Incomplete(_)) => Got::Incomplete,
        Err(_) => Got::No,
    }
}

fn r<O, F: FnOnce(O) -> String>(t: &str, r: R<O>, f: F) -> Got {
    match r {
        Ok((o, q)) => Got::Ok(f(o), t.len() - q),
        Err(No::Soft) | Err(No::Fatal) => Got::No,
    }
}

fn d<T: std::fmt::Debug>(x: T) -> String {
    format!("{:?}", x)
}

fn fst(s: CompleteStr) -> String {
    s.0.to_string()
}

fn none<T>(_: T) -> String {
    String::new()
}

fn hd(h: p::string::HereDoc) -> String {
    d((h.identifier.0.to_string(), h.indented))
}

pub type Sub = (&'static str, fn(&str) -> Got, fn(&str) -> Got);

/// name, library parser, reference parser
pub const SUBS: &[Sub] = &[
    ("inline_comment", |t| l(p::whitespace::inline_comment(CompleteStr(t)), fst), |t| r(t, refp::inline_comment(t, 0), |x| x)),
    ("hash_comment", |t| l(p::whitespace::hash_comment(CompleteStr(t)), fst), |t| r(t, refp::hash_comment(t, 0), |x| x)),
    ("slash_comment", |t| l(p::whitespace::slash_comment(CompleteStr(t)), fst), |t| r(t, refp::slash_comment(t, 0), |x| x)),
    ("line_comment", |t| l(p::whitespace::line_comment(CompleteStr(t)), fst), |t| r(t, refp::line_comment(t, 0), |x| x)),
    ("inline_whitespace", |t| l(p::whitespace::inline_whitespace(CompleteStr(t)), none), |t| Got::Ok(String::new(), t.len() - refp::iw(t, 0))),
    ("whitespace", |t| l(p::whitespace::whitespace(CompleteStr(t)), none), |t| Got::Ok(String::new(), t.len() - refp::ws(t, 0))),
    ("newline", |t| l(p::whitespace::newline(CompleteStr(t)), none), |t| r(t, refp::newline(t, 0), none)),
    ("identifier", |t| l(p::identifier::identifier(CompleteStr(t)), |x| x.to_string()), |t| r(t, refp::identifier(t, 0), |x| x)),
    ("number", |t| l(p::number::number(CompleteStr(t)), |x| x.to_string()), |t| r(t, refp::number(t, 0), |x| x)),
    ("boolean", |t| l(p::boolean::boolean(CompleteStr(t)), d), |t| r(t, refp::boolean(t, 0), d)),
    ("null", |t| l(p::null::null(CompleteStr(t)), none), |t| r(t, refp::null(t, 0), none)),
    ("string_literal_content", |t| l(p::string::string_literal_content(CompleteStr(t)), |x| x), |t| r(t, refp::string_content(t, 0, false), |x| x)),
    ("string_literal", |t| l(p::string::string_literal(CompleteStr(t)), |x| x), |t| r(t, refp::quoted(t, 0, false), |x| x)),
    ("heredoc_begin", |t| l(p::string::heredoc_begin(CompleteStr(t)), hd), |t| r(t, refp::heredoc_begin(t, 0), d)),
    ("heredoc_string", |t| l(p::string::heredoc_string(CompleteStr(t)), |x| x.to_string()), |t| r(t, refp::heredoc(t, 0), |x| x)),
    ("string", |t| l(p::string::string(CompleteStr(t)), |x| x.to_string()), |t| r(t, refp::string(t, 0), |x| x)),
    (
        "heredoc_end",
        |t| l(p::string::heredoc_end(CompleteStr(t), &p::string::HereDoc { identifier: CompleteStr("EOF"), indented: false }), d),
        |t| r(t, refp::heredoc_end(t, 0, "EOF", false), d),
    ),
    (
        "heredoc_end-",
        |t| l(p::string::heredoc_end(CompleteStr(t), &p::string::HereDoc { identifier: CompleteStr("EOF"), indented: true }), d),
        |t| r(t, refp::heredoc_end(t, 0, "EOF", true), d),
    ),
    ("tuple", |t| l(p::tuple::tuple(CompleteStr(t)), |x| d(x.iter().map(read_expr).collect::<Vec<_>>())), |t| r(t, refp::tuple(t, 0), d)),
    (
        "object_element_identifier",
        |t| l(p::object::object_element_identifier(CompleteStr(t)), |x| d(read_key(&x))),
        |t| r(t, refp::object_key(t, 0), d),
    ),
    ("object_element", |t| l(p::object::object_element(CompleteStr(t)), |(k, v)| d((read_key(&k), read_expr(&v)))), |t| r(t, refp::object_element(t, 0), d)),
    ("object_begin", |t| l(p::object::object_begin(CompleteStr(t)), d), |t| if t.starts_with('{') { Got::Ok("'{'".into(), t.len() - 1) } else { Got::No }),
    ("object_end", |t| l(p::object::object_end(CompleteStr(t)), d), |t| if t.starts_with('}') { Got::Ok("'}'".into(), t.len() - 1) } else { Got::No }),
    ("object_separator", |t| l(p::object::object_separator(CompleteStr(t)), none), |t| r(t, refp::object_separator(t, 0), none)),
    (
        "object_body",
        |t| l(p::object::object_body(CompleteStr(t)), |x| d(x.iter().map(|(k, v)| (read_key(k), read_expr(v))).collect::<Vec<_>>())),
        |t| r(t, refp::object_body(t, 0), d),
    ),
    (
        "object",
        |t| l(p::object::object(CompleteStr(t)), |x| d(x.iter().map(|(k, v)| (read_key(k), read_expr(v))).collect::<Vec<_>>())),
        |t| r(t, refp::object(t, 0), d),
    ),
    ("bracket_expression", |t| l(p::expression::bracket_expression(CompleteStr(t)), |x| d(read_expr(&x))), |t| r(t, refp::bracket(t, 0), d)),
    ("expression", |t| l(p::expression::expression(CompleteStr(t)), |x| d(read_expr(&x))), |t| r(t, refp::expression(t, 0), d)),
    ("attribute", |t| l(p::attribute::attribute(CompleteStr(t)), |x| d(read_attr(&x))), |t| r(t, refp::attribute(t, 0), d)),
    ("block_label", |t| l(p::block::block_label(CompleteStr(t)), |x| d(read_label(&x))), |t| r(t, refp::block_label(t, 0), d)),
    ("block_labels", |t| l(p::block::block_labels(CompleteStr(t)), |x| d(x.iter().map(read_label).collect::<Vec<_>>())), |t| r(t, refp::block_labels(t, 0), d)),
    (
        "one_line_block_body",
        |t| l(p::block::one_line_block_body(CompleteStr(t)), |x| d(x.as_ref().map(read_attr))),
        |t| match refp::attribute(t, 0) {
            Ok((a, q)) => Got::Ok(d(Some(a)), t.len() - q),
            Err(No::Soft) => Got::Ok("None".into(), t.len()),
            Err(No::Fatal) => Got::No,
        },
    ),
    ("one_line_block", |t| l(p::block::one_line_block(CompleteStr(t)), |x| d(read_block(&x))), |t| r(t, refp::one_line_block(t, 0), d)),
    ("block", |t| l(p::block::block(CompleteStr(t)), |x| d(read_block(&x))), |t| r(t, refp::block(t, 0), d)),
    ("body_element", |t| l(p::body::body_element(CompleteStr(t)), |x| d(read_elem(&x))), |t| r(t, refp::body_element(t, 0), d)),
    ("body", |t| l(p::body::body(CompleteStr(t)), |x| d(read_body(&x))), |t| r(t, refp::body(t, 0), d)),
    (
        "config_file",
        |t| l(p::config_file(CompleteStr(t)), |x| d(read_body(&x))),
        |t| match refp::document(t) {
            Some(b) => Got::Ok(d(b), 0),
            None => Got::No,
        },
    ),
];

fn compare_subs(t: &str, c: &mut Ctx, mut only: Vec<usize>) -> CaseResult {
    if !judged(t) {
        c.discard = true;
        return Ok(());
    }
    if only.is_empty() {
        only = (0..SUBS.len()).collect();
    }
    for i in only {
        let (name, lib, rf) = SUBS[i];
        let (g, w) = (lib(t), rf(t));
        if let Got::Ok(_, n) = &w {
            if *n < t.len() {
                c.nontrivial = true;
                c.label(name);
            }
        }
        if refp::tab_indented_heredoc(t) {
            let strip = |g: &Got| match g {
                Got::Ok(_, n) => Some(*n),
                _ => None,
            };
            ensure!(strip(&g) == strip(&w), "{}: got {:?} expected {:?}", name, g, w);
        } else {
            ensure!(g == w, "{}: got {} expected {}", name, clip(&d(&g), 500), clip(&d(&w), 500));
        }
    }
    Ok(())
}

fn c27_construct(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let sh = gen::shape(s);
    let mut l = Lay::new(s);
    match s.below(14) {
        0 => l.p(&gen::ident(s)),
        1 => l.p(&gen::num_text(s)),
        2 => l.p(s.pick(&["true", "false", "null"])),
        3 => {
            let t = gen::text(s, 8);
            let m = s.bool();
            l.quoted(s, &t, m)
        }
        4 => {
            let t = gen::text(s, 12);
            l.heredoc(s, &t);
        }
        5 => {
            let t = gen::text(s, 8);
            l.p("\n");
            l.p(s.pick(&["", " ", "    ", "\t"]));
            l.p(s.pick(&["EOF", "EO", "EOFX"]));
            l.p(&t);
        }
        6 | 7 => {
            let e = gen::expr(s, &sh, 2);
            l.expr(s, &e);
        }
        8 => {
            let k = gen::key(s, &sh);
            match k {
                MKey::Ident(k) | MKey::Expr(k) => l.p(&k),
            }
            l.sp(s);
            l.p("=");
            l.sp(s);
            let e = gen::expr(s, &sh, 1);
            l.expr(s, &e);
        }
        9 => {
            for _ in 0..s.range(1, 3) {
                let x = gen::label(s);
                l.label(s, &x);
                l.p(" ");
            }
        }
        10 | 11 => {
            let b = gen::body(s, &sh, 2);
            if let Some(e) = b.first() {
                l.elem(s, e);
            }
        }
        12 => {
            let b = gen::body(s, &sh, 1);
            l.document(s, &b);
        }
        _ => {
            l.noise = 2;
            l.ws(s);
        }
    }
    let mut t = l.out;
    // what follows
    match s.below(5) {
        0 => {}
        1 => t.push_str(s.pick(&["\n", "\r\n", " ", ",", "}", "]", ")", "=", "\"", "{", "#", "/*", "//x\n"])),
        2 => t.push_str(&gen::text(s, 6)),
        3 => t.push_str(&gen::soup(s)),
        _ => {
            t.push('\n');
            t.push_str(&gen::soup(s));
        }
    }
    if s.chance(1, 6) {
        gen::edit(s, &mut t, None);
    }
    c.show = t.clone();
    compare_subs(&t, c, vec![])
}

fn c27_random(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = match s.below(3) {
        0 => gen::soup(s),
        1 => {
            let n = s.len(12);
            (0..n).map(|_| gen::ch(s)).collect()
        }
        _ => {
            let mut t = gen::soup(s);
            gen::edit(s, &mut t, None);
            t
        }
    };
    c.show = t.clone();
    compare_subs(&t, c, vec![])
}

// ------------------------------------------------------------------ C11

fn c11_tree(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (b, lay) = gen::doc(s);
    c.show = lay.out.clone();
    c.nontrivial_if(body_nodes(&b) >= 3);
    let mut src = lay.out;
    let owned: Body<'static> = {
        let t = parse_str(&src).map_err(|e| disp(&e))?;
        let o = t.as_owned();
        ensure!(o == t, "owned copy compares unequal");
        ensure!(t == o, "original compares unequal to the copy");
        ensure!(format!("{:?}", o) == format!("{:?}", t), "owned copy renders differently");
        for (x, y) in t.iter().zip(o.iter()) {
            if let (BodyElement::Attribute((_, e)), BodyElement::Attribute((_, f))) = (x, y) {
                numbers_agree(e, f)?;
                let again = f.as_owned();
                ensure!(again == *f && d(&again) == d(f), "copying twice changed the expression");
            }
        }
        same("owned", &read_body(&o), &read_body(&t))?;
        o
    };
    // the source is overwritten, then gone
    unsafe {
        for x in src.as_bytes_mut() {
            *x = b'?';
        }
    }
    drop(src);
    same("owned after the source is gone", &read_body(&owned), &b)?;
    let again = owned.as_owned();
    drop(owned);
    same("second copy", &read_body(&again), &b)
}

fn numbers_agree(a: &Expression, b: &Expression) -> CaseResult {
    match (a, b) {
        (Expression::Number(x), Expression::Number(y)) => {
            ensure!(x.is_float() == y.is_float() && x.is_signed() == y.is_signed() && x.is_unsigned() == y.is_unsigned(), "number flags differ for {:?}", x);
            ensure!(x.as_i128().ok() == y.as_i128().ok() && x.as_u64().ok() == y.as_u64().ok(), "number conversions differ for {:?}", x);
            ensure!(x.as_f64().ok().map(f64::to_bits) == y.as_f64().ok().map(f64::to_bits), "float conversions differ for {:?}", x);
            ensure!(x == y && y == x, "number copy unequal {:?}", x);
        }
        (Expression::Tuple(x), Expression::Tuple(y)) => {
            for (i, j) in x.iter().zip(y) {
                numbers_agree(i, j)?;
            }
        }
        (Expression::Object(x), Expression::Object(y)) => {
            for (i, j) in x.iter().zip(y) {
                numbers_agree(&i.1, &j.1)?;
            }
        }
        _ => {}
    }
    Ok(())
}

fn c11_value(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let m = super::values::gen_map(s, 3, s_bool_old());
    let text = super::values::render(s, &m);
    c.show = text.clone();
    c.nontrivial_if(omap_nodes(&m) >= 3);
    let merge = s.bool();
    let mut src = text.clone();
    let (owned, want) = {
        let v = match value::from_str(&src, None) {
            Ok(v) => v,
            Err(e) => return Err(format!("legal document rejected: {}", disp(&e))),
        };
        let v = if merge {
            match v.merge() {
                Ok(v) => v,
                Err(_) => {
                    c.discard = true;
                    return Ok(());
                }
            }
        } else {
            v
        };
        c.label_if(merge, "merged");
        let o = v.as_owned();
        let (a, b) = (read_map(&o), read_map(&v));
        same("owned value tree", &a, &b)?;
        if !has_nan(&b) {
            ensure!(o == v, "owned value tree compares unequal");
        }
        // piecewise
        for (k, x) in &v {
            let (k2, x2) = (<Key as AsOwned>::as_owned(k), x.as_owned());
            ensure!(read_okey(&k2) == read_okey(k) && k2 == *k, "owned key differs: {:?}", k);
            same("inherent as_owned of a key", &read_okey(&k.as_owned()), &read_okey(k))?;
            same("owned value", &read_val(&x2), &read_val(x))?;
        }
        (o, b)
    };
    unsafe {
        for x in src.as_bytes_mut() {
            *x = b'?';
        }
    }
    drop(src);
    same("owned after the source is gone", &read_map(&owned), &want)?;
    same("second copy", &read_map(&owned.as_owned()), &want)
}

fn s_bool_old() -> bool {
    true
}

fn has_nan(_: &OMap) -> bool {
    // literals never denote NaN
    false
}

fn c11_pieces(s: &mut Src, c: &mut Ctx) -> CaseResult {
    c.nontrivial = true;
    let t = gen::text(s, 8);
    let lab = if s.bool() { BlockLabel::Identifier(Cow::Borrowed(&t)) } else { BlockLabel::StringLiteral(t.clone()) };
    let o = lab.as_owned();
    same("label", &read_label(&o), &read_label(&lab))?;
    let key = if s.bool() { ObjectElementIdentifier::Identifier(Cow::Borrowed(&t)) } else { ObjectElementIdentifier::Expression(Cow::Borrowed(&t)) };
    same("object key", &read_key(&key.as_owned()), &read_key(&key))?;
    let cow: Cow<str> = Cow::Borrowed(&t);
    ensure!(cow.as_owned() == cow, "cow");
    let cow: Cow<String> = if s.bool() { Cow::Borrowed(&t) } else { Cow::Owned(t.clone()) };
    let o: Cow<'static, String> = AsOwned::as_owned(&cow);
    ensure!(matches!(o, Cow::Owned(_)) && *o == t, "cow of {:?} became {:?}", t, o);
    fn by_ref<T: AsOwned>(x: T) -> T::Output {
        x.as_owned()
    }
    ensure!(by_ref(&t) == t && by_ref(&Some(&t)).as_ref() == Some(&t) && by_ref(&(&t, &t)) == (t.clone(), t.clone()), "through references");
    ensure!(t.as_owned() == t && t.as_str().as_owned() == t, "string");
    let opt = if s.bool() { Some(t.clone()) } else { None };
    ensure!(opt.as_owned() == opt, "option");
    let n = s.len(5);
    let v: Vec<(String, String)> = (0..n).map(|_| (gen::text(s, 3), gen::text(s, 3))).collect();
    ensure!(v.as_owned() == v, "vec of pairs");
    let h: std::collections::HashMap<String, String> = v.iter().cloned().collect();
    ensure!(h.as_owned() == h, "hash map");
    let num = gen::num_text(s);
    let e = Expression::parse(&num).map_err(|e| disp(&e))?;
    let f = e.as_owned();
    numbers_agree(&e, &f)?;
    let attr: Attribute = (Cow::Borrowed(t.as_str()), e);
    let a2 = attr.as_owned();
    same("attribute", &read_attr(&a2), &read_attr(&attr))?;
    let bl = Block::new(Cow::Borrowed(&t), vec![lab], vec![attr.into()]);
    same("block", &read_block(&bl.as_owned()), &read_block(&bl))?;
    ensure!(bl.as_owned() == bl, "block copy unequal");
    c.show = format!("{:?} {:?}", t, num);
    Ok(())
}

// ------------------------------------------------------------------ C28

/// a library tree assembled through the public constructors and conversions
pub fn build_expr<'a>(s: &mut Src, e: &'a MExpr) -> Expression<'a> {
    match e {
        MExpr::Null => {
            if s.bool() {
                Expression::from(())
            } else {
                Expression::Null
            }
        }
        MExpr::Bool(b) => Expression::from(*b),
        MExpr::Num(t) => {
            let plain = !t.starts_with('+') && !(t.starts_with('0') && t.len() > 1) && !t.starts_with("-0");
            if plain && s.bool() {
                if let Ok(i) = t.parse::<i8>() {
                    return Expression::from(i);
                }
                if let Ok(i) = t.parse::<u8>() {
                    return Expression::from(i);
                }
                if let Ok(i) = t.parse::<i16>() {
                    return Expression::from(i);
                }
                if let Ok(i) = t.parse::<u16>() {
                    return Expression::from(i);
                }
                if let Ok(i) = t.parse::<i32>() {
                    return Expression::from(i);
                }
                if let Ok(i) = t.parse::<u32>() {
                    return Expression::from(i);
                }
                if let Ok(i) = t.parse::<i64>() {
                    return Expression::from(i);
                }
                if let Ok(i) = t.parse::<u64>() {
                    return Expression::from(i);
                }
                if let Ok(i) = t.parse::<i128>() {
                    return Expression::from(i);
                }
                if let Ok(i) = t.parse::<u128>() {
                    return Expression::from(i);
                }
            }
            Expression::parse(t).expect("number literal")
        }
        MExpr::Str(t) => match s.below(3) {
            0 => Expression::from(t.as_str()),
            1 => Expression::from(Cow::Owned::<str>(t.clone())),
            _ => Expression::String(Cow::Borrowed(t)),
        },
        MExpr::Tuple(v) => {
            let w: Vec<Expression> = v.iter().map(|x| build_expr(s, x)).collect();
            match s.below(3) {
                0 => Expression::new_tuple(w),
                1 => w.into_iter().collect(),
                _ => Expression::from(w),
            }
        }
        MExpr::Object(v) => {
            let w: Vec<(ObjectElementIdentifier, Expression)> = v.iter().map(|(k, x)| (build_key(s, k), build_expr(s, x))).collect();
            if s.bool() && v.iter().all(|(k, _)| matches!(k, MKey::Ident(_))) {
                let w: Vec<(&str, Expression)> = v
                    .iter()
                    .zip(w)
                    .map(|((k, _), (_, e))| match k {
                        MKey::Ident(k) | MKey::Expr(k) => (k.as_str(), e),
                    })
                    .collect();
                Expression::new_object(w)
            } else if s.bool() {
                Expression::new_object(w)
            } else {
                Expression::Object(w)
            }
        }
    }
}

pub fn build_key<'a>(s: &mut Src, k: &'a MKey) -> ObjectElementIdentifier<'a> {
    match k {
        MKey::Ident(t) => {
            if s.bool() {
                ObjectElementIdentifier::from(t.as_str())
            } else {
                ObjectElementIdentifier::Identifier(Cow::Owned(t.clone()))
            }
        }
        MKey::Expr(t) => ObjectElementIdentifier::Expression(Cow::Borrowed(t)),
    }
}

pub fn build_label<'a>(s: &mut Src, l: &'a MLabel) -> BlockLabel<'a> {
    match l {
        MLabel::Ident(t) => {
            if s.bool() {
                BlockLabel::from(t.as_str())
            } else {
                BlockLabel::Identifier(Cow::Owned(t.clone()))
            }
        }
        MLabel::Lit(t) => BlockLabel::StringLiteral(t.clone()),
    }
}

pub fn build_block<'a>(s: &mut Src, b: &'a MBlock) -> Block<'a> {
    let labels: Vec<BlockLabel> = b.labels.iter().map(|l| build_label(s, l)).collect();
    match b.body.as_slice() {
        [] if s.bool() => Block::new_one_line(Cow::Borrowed(&b.ty), labels, None),
        [MElem::Attr(k, v)] if s.bool() => {
            let e = build_expr(s, v);
            Block::new_one_line(Cow::Borrowed(&b.ty), labels, Some((Cow::Borrowed(k.as_str()), e)))
        }
        _ => Block::new(Cow::Borrowed(&b.ty), labels, build_body(s, &b.body)),
    }
}

pub fn build_body<'a>(s: &mut Src, b: &'a MBody) -> Body<'a> {
    b.iter()
        .map(|e| match e {
            MElem::Attr(k, v) => {
                let a: Attribute = (Cow::Borrowed(k.as_str()), build_expr(s, v));
                BodyElement::from(a)
            }
            MElem::Block(b) => BodyElement::from(build_block(s, b)),
        })
        .collect()
}

/// change one thing
fn alter_expr(s: &mut Src, e: &mut MExpr) {
    match e {
        MExpr::Tuple(v) if !v.is_empty() && s.chance(2, 3) => {
            let i = s.below(v.len());
            match s.below(4) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    v.insert(i, MExpr::Str("added".into()));
                }
                _ => alter_expr(s, &mut v[i]),
            }
        }
        MExpr::Object(v) if !v.is_empty() && s.chance(2, 3) => {
            let i = s.below(v.len());
            match s.below(4) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let k = match &v[i].0 {
                        MKey::Ident(t) => MKey::Ident(format!("{}x", t)),
                        MKey::Expr(t) => MKey::Ident(format!("x{}", t.len())),
                    };
                    v[i].0 = k;
                }
                _ => alter_expr(s, &mut v[i].1),
            }
        }
        MExpr::Bool(b) if s.bool() => *b = !*b,
        MExpr::Str(t) if s.bool() => t.push('x'),
        MExpr::Num(t) if s.bool() => *e = MExpr::Num(super::numbers::distinct_from(t)),
        MExpr::Null => *e = MExpr::Bool(false),
        _ => *e = if matches!(e, MExpr::Null) { MExpr::Str(String::new()) } else { MExpr::Null },
    }
}

fn alter_body(s: &mut Src, b: &mut MBody) {
    if b.is_empty() || s.chance(1, 6) {
        let i = s.below(b.len() + 1);
        b.insert(i, MElem::Attr("added".into(), MExpr::Null));
        return;
    }
    let i = s.below(b.len());
    match s.below(6) {
        0 => {
            b.remove(i);
        }
        _ => match &mut b[i] {
            MElem::Attr(k, v) => {
                if s.chance(1, 3) {
                    k.push('x')
                } else {
                    alter_expr(s, v)
                }
            }
            MElem::Block(x) => match s.below(4) {
                0 => x.ty.push('x'),
                1 => x.labels.push(MLabel::Ident("added".into())),
                2 if !x.labels.is_empty() => {
                    let j = s.below(x.labels.len());
                    match &mut x.labels[j] {
                        MLabel::Ident(t) | MLabel::Lit(t) => t.push('x'),
                    }
                }
                _ => alter_body(s, &mut x.body),
            },
        },
    }
}

fn c28_tree(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (b, lay) = gen::doc(s);
    c.show = lay.out.clone();
    c.nontrivial_if(body_nodes(&b) >= 3);
    let parsed = parse_str(&lay.out).map_err(|e| disp(&e))?;
    let built = build_body(s, &b);
    same("constructed tree", &read_body(&built), &b)?;
    ensure!(built == parsed, "constructed tree differs from the parsed one");
    ensure!(parsed == built, "parsed tree differs from the constructed one");
    ensure!(built.clone() == built, "clone differs");
    for (e, m) in built.iter().zip(&b) {
        ensure!(e.is_attribute() == matches!(m, MElem::Attr(..)) && e.is_block() == matches!(m, MElem::Block(_)), "kind tests of {:?}", m);
        match m {
            MElem::Attr(..) => {
                ensure!(guard(|| e.clone().unwrap_block()).is_err(), "an attribute was unwrapped as a block");
                let (k, v) = e.clone().unwrap_attribute();
                same("unwrap_attribute", &MElem::Attr(k.to_string(), read_expr(&v)), m)?;
                let want = match &v {
                    Expression::Null => "Null",
                    Expression::Number(_) => "Number",
                    Expression::Boolean(_) => "Boolean",
                    Expression::String(_) => "String",
                    Expression::Tuple(_) => "Tuple",
                    Expression::Object(_) => "Object",
                };
                same("variant_name", &v.variant_name(), &want)?;
            }
            MElem::Block(_) => {
                ensure!(guard(|| e.clone().unwrap_attribute()).is_err(), "a block was unwrapped as an attribute");
                let x = e.clone().unwrap_block();
                same("unwrap_block", &MElem::Block(read_block(&x)), m)?;
            }
        }
    }
    let mut other = b.clone();
    alter_body(s, &mut other);
    if other != b {
        let o = build_body(s, &other);
        ensure!(o != parsed, "a different tree compares equal: {:?}", clip(&d(&other), 400));
        ensure!(parsed != o, "a different tree compares equal: {:?}", clip(&d(&other), 400));
    }
    Ok(())
}

fn c28_value(s: &mut Src, c: &mut Ctx) -> CaseResult {
    use super::values as v;
    let m = v::gen_map(s, 3, true);
    let text = v::render(s, &m);
    c.show = text.clone();
    c.nontrivial_if(m.entries.len() >= 2);
    let parsed = value::from_str(&text, None).map_err(|e| format!("legal document rejected: {}", disp(&e)))?;
    let built = v::construct_map(s, &m);
    same("constructed", &read_map(&built), &m)?;
    ensure!(built == parsed && parsed == built, "constructed value tree differs from the parsed one");
    let mut other = m.clone();
    v::alter(s, &mut other);
    if other != m {
        let o = build_map(&other);
        ensure!(o != parsed && parsed != o, "a different value tree compares equal: {}", clip(&d(&other), 400));
    }
    Ok(())
}
