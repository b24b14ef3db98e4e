//! C05 C06 C09 C22 C23: strings, heredocs, names, searching, keys.
use super::*;
use crate::ensure;
use crate::gen::{self, *};
use crate::model::*;
use crate::props::syntax::{disp, judged};
use crate::refp::{self, No};
use ferrous_chloride::AsOwned;
use ferrous_chloride::parser::block::BlockLabel;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::parser::{self as p, Expression};
use ferrous_chloride::utils::{while_predicate1, SafeIndexing};
use ferrous_chloride::{parse_str, take_till_match, value};
use nom::types::{CompleteByteSlice, CompleteStr, Input};
use nom::{alt, call, peek, tag, IResult};
use std::borrow::{Borrow, Cow};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C05",
            vec![
                check("render", 60_000, 1_500_000, "random text rendered with random escapes as value, label, key; non-trivial: at least 2 characters", c05_render),
                check("escapes", 80_000, 2_500_000, "random sequences of escape fragments and raw characters against the reference decoder; non-trivial: at least one escape", c05_escapes),
                check("codepoints", 60_000, 1_000_000, "one numeric escape of each form over the whole code space incl. surrogates and out-of-range, digits following; all count", c05_codepoints),
            ],
        ),
        prop(
            "C06",
            vec![
                check("lines", 80_000, 2_000_000, "heredocs assembled line by line, expected value by line rules; non-trivial: at least 2 content lines", c06_lines),
                check("in-place", 40_000, 1_000_000, "heredocs inside tuples, objects, blocks, both models, several per document, plain and indented; all count", c06_in_place),
                check("mixed-blanks", 10_000, 250_000, "indented heredocs with tabs among the blanks before the closing marker or on the lines: every line is kept but for at most as many leading spaces, and nothing else, as blanks stand before the marker; non-trivial: a line starts with a space", c06_mixed),
                check("unterminated", 30_000, 600_000, "heredocs whose marker never occurs alone on a line are rejected; all count", c06_unterminated),
            ],
        ),
        prop(
            "C09",
            vec![
                check("names", 60_000, 1_500_000, "names over the Unicode range with one foreign character, in every position, both models, against the identifier table; non-trivial: non-ASCII or rejected name", c09_names),
                check("sweep", 30_000, 600_000, "every code point over the runs as first and as later character; non-trivial: letters and marks", c09_sweep),
                check("labels", 40_000, 1_000_000, "blocks with up to 8 labels, bare and quoted; non-trivial: at least 2 labels", c09_labels),
            ],
        ),
        prop(
            "C22",
            vec![
                check("text", 60_000, 1_500_000, "take_till_match over text with several inner parsers against a scan of all character boundaries; non-trivial: match not at 0", c22_text),
                check("bytes", 60_000, 1_500_000, "take_till_match over byte inputs against a scan of all positions; non-trivial: match not at 0", c22_bytes),
                check("indices", 60_000, 1_000_000, "safe_indices of every input type and while_predicate1; non-trivial: multi-byte text", c22_indices),
            ],
        ),
        prop(
            "C23",
            vec![
                check("pairs", 80_000, 2_000_000, "pairs of keys / labels with equal, near-equal or different text in all spellings: equality, hash, lookup; non-trivial: different spelling", c23_pairs),
                check("collections", 30_000, 800_000, "hash maps and key-value collections keyed by spellings against a map keyed by text; non-trivial: a text occurs twice", c23_collections),
            ],
        ),
    ]
}

// ------------------------------------------------------------------ C05

/// the string as value, tuple element, object value, block label, old value, old label, old key
fn c05_render(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = if s.chance(1, 3) {
        let n = s.len(12);
        (0..n).map(|_| gen::ch(s)).collect()
    } else {
        gen::text(s, 16)
    };
    c.nontrivial_if(t.chars().count() >= 2);
    let mut l = Lay::plain();
    l.quoted(s, &t, true);
    let multi = l.out;
    let mut l = Lay::plain();
    l.quoted(s, &t, false);
    let single = l.out;
    c.show = format!("{:?} as {} / {}", t, multi, single);
    c.label_if(t.chars().any(|c| c as u32 > 0xffff), "astral");
    c.label_if(t.contains('\n'), "line break");
    let want = MExpr::Str(t.clone());
    let e = Expression::parse(&multi).map_err(|e| format!("rejected: {}", disp(&e)))?;
    same("value", &read_expr(&e), &want)?;
    let doc = format!("a = {}\nb {} c {} {{\nd = [{}, {{ k = {} }}]\n}}\n", multi, single, single, multi, single);
    let b = parse_str(&doc).map_err(|e| format!("rejected: {}", disp(&e)))?;
    let lab = MLabel::Lit(t.clone());
    let expect = vec![
        MElem::Attr("a".into(), want.clone()),
        MElem::Block(MBlock {
            ty: "b".into(),
            labels: vec![lab.clone(), MLabel::Ident("c".into()), lab],
            body: vec![MElem::Attr("d".into(), MExpr::Tuple(vec![want.clone(), MExpr::Object(vec![(MKey::Ident("k".into()), want)])]))],
        }),
    ];
    same("document", &read_body(&b), &expect)?;
    let old = format!("{} = {}\nb {} {{\nd = [{}]\n}}\n", single, multi, single, multi);
    let m = value::from_str(&old, None).map_err(|e| format!("rejected by the value parser: {}", disp(&e)))?;
    let expect = OMap::un(vec![
        (OKey::Str(t.clone()), OVal::Str(t.clone())),
        (
            OKey::Ident("b".into()),
            OVal::Block(OBlock { merged: false, entries: vec![(vec![t.clone()], OMap::un(vec![(OKey::Ident("d".into()), OVal::List(vec![OVal::Str(t)]))]))] }),
        ),
    ]);
    same("value document", &read_map(&m), &expect)
}

const FRAGS: &[&str] = &[
    "\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v", "\\\\", "\\\"", "\\?", "\\0", "\\7", "\\12", "\\101", "\\777", "\\400", "\\x4", "\\xff", "\\xG", "\\x", "\\u", "\\uD000", "\\ud800", "\\udfff", "\\ue000", "\\u00e9",
    "\\u12", "\\U", "\\U29000", "\\U0010ffff", "\\U00110000", "\\U1F600", "\\UD800", "\\Uffffffff", "\\8", "\\9", "\\q", "\\N", "\\'", "\\ ", "\\\n", "\\", "\\X41", "\\e", "\\é", "\\$", "$${", "\\u{41}",
];

fn frag(s: &mut Src) -> (String, bool) {
    match s.weighted(&[35, 30, 20, 15]) {
        0 => {
            let c = gen::ch(s);
            (if c == '"' && s.chance(3, 4) { "'".into() } else { c.to_string() }, false)
        }
        1 => (s.pick(FRAGS).to_string(), true),
        2 => {
            // a well-formed numeric escape
            let u = loop_scalar(s);
            let t = match s.below(4) {
                0 if u <= 0o777 => format!("\\{:o}", u),
                1 if u <= 0xff => format!("\\x{:x}", u),
                2 if u <= 0xffff => format!("\\u{:X}", u),
                _ => format!("\\U{:08x}", u),
            };
            (t, true)
        }
        _ => {
            let n = s.below(6);
            let k = *s.pick(&["\\x", "\\u", "\\U", "\\"]);
            (format!("{}{}", k, (0..n).map(|_| *s.pick(&['0', '1', '7', '8', 'a', 'F', 'g', 'd', '٣', 'ａ'])).collect::<String>()), true)
        }
    }
}

fn loop_scalar(s: &mut Src) -> u32 {
    match s.below(4) {
        0 => s.below(0x80) as u32,
        1 => s.below(0x300) as u32,
        2 => s.below(0x10000) as u32,
        _ => s.below(0x110000) as u32,
    }
}

fn c05_escapes(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.range(1, 6);
    let mut t = String::from("\"");
    for _ in 0..n {
        let (f, esc) = frag(s);
        t.push_str(&f);
        c.nontrivial_if(esc);
    }
    if !s.chance(1, 12) {
        t.push('"');
    }
    if s.chance(1, 8) {
        t.push_str(s.pick(&["\"", " ", "x", "\n"]));
    }
    c.show = t.clone();
    decode_everywhere(&t, c)
}

fn decode_everywhere(t: &str, c: &mut Ctx) -> CaseResult {
    let multi = refp::quoted(t, 0, true);
    c.label_if(multi.is_ok(), "accepted");
    c.label_if(multi == Err(No::Fatal), "invalid escape");
    // sub-parsers: value and rest
    let got = p::string::string(CompleteStr(t)).ok().map(|(r, v)| (v.to_string(), t.len() - r.0.len()));
    same("string", &got, &multi.clone().ok())?;
    let single = refp::quoted(t, 0, false);
    let got = p::string::string_literal(CompleteStr(t)).ok().map(|(r, v)| (v, t.len() - r.0.len()));
    same("string_literal", &got, &single.clone().ok())?;
    let got = p::block::block_label(CompleteStr(t)).ok().map(|(r, v)| (v.as_str().to_string(), t.len() - r.0.len()));
    same("block_label", &got, &single.clone().ok())?;
    // whole expression
    let want = match &multi {
        Ok((v, q)) if *q == t.len() => Some(MExpr::Str(v.clone())),
        _ => None,
    };
    same("Expression::parse", &Expression::parse(t).ok().map(|e| read_expr(&e)), &want)?;
    // label of a block
    if let Ok((v, q)) = &single {
        if *q == t.len() {
            let doc = format!("b {} {{}}", t);
            let b = parse_str(&doc).map_err(|e| format!("label rejected: {}", disp(&e)))?;
            same("label", &read_body(&b), &vec![MElem::Block(MBlock { ty: "b".into(), labels: vec![MLabel::Lit(v.clone())], body: vec![] })])?;
        }
    }
    // value parser: value, then key
    let doc = format!("a = {}\n", t);
    let want = crate::refold::document(&doc);
    same("value parser", &value::from_str(&doc, None).ok().map(|m| read_map(&m)), &want)?;
    let doc = format!("{} = 1\n", t);
    let want = crate::refold::document(&doc);
    same("key of the value parser", &value::from_str(&doc, None).ok().map(|m| read_map(&m)), &want)
}

fn c05_codepoints(s: &mut Src, c: &mut Ctx) -> CaseResult {
    c.nontrivial = true;
    let u: u64 = match s.weighted(&[40, 20, 20, 20]) {
        0 => s.below(0x110000) as u64,
        1 => 0xd700 + s.below(0xa00) as u64,
        2 => s.below(0x1000) as u64,
        _ => match s.below(3) {
            0 => 0x10ff00 + s.below(0x300) as u64,
            1 => s.u64() & 0xffff_ffff,
            _ => *s.pick(&[0u64, 0x7f, 0x80, 0xff, 0x100, 0x1ff, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff]),
        },
    };
    let up = s.bool();
    let hex = |w: usize| if up { format!("{:0w$X}", u, w = w) } else { format!("{:0w$x}", u, w = w) };
    let (form, max) = match s.below(4) {
        0 if u <= 0o777 => (format!("\\{:0w$o}", u, w = s.range(1, 3)), 3),
        1 if u <= 0xff => (format!("\\x{}", hex(s.range(1, 2))), 2),
        2 if u <= 0xffff => (format!("\\u{}", hex(s.range(1, 4))), 4),
        _ => (format!("\\U{}", hex(s.range(1, 8))), 8),
    };
    let digits = form.trim_start_matches(['\\', 'x', 'u', 'U']).len();
    // what follows: a digit that belongs to the next character only when the escape is full
    let tail = if digits == max { *s.pick(&["", "0", "7", "a", "z", "é", "\\n"]) } else { *s.pick(&["", "z", "é", " ", "\\n", "g"]) };
    let t = format!("\"{}{}\"", form, tail);
    c.show = t.clone();
    let ch = char::from_u32(u as u32);
    c.label_if(ch.is_none(), "no scalar value");
    let want = ch.map(|ch| format!("{}{}", ch, tail.replace("\\n", "\n")));
    same("value", &Expression::parse(&t).ok().map(|e| read_expr(&e)), &want.map(MExpr::Str))?;
    decode_everywhere(&t, c)
}

// ------------------------------------------------------------------ C06

const MARKS: &[&str] = &["EOF", "E", "A1", "_x", "été", "END_OF", "1", "99", "藏"];

/// Line rules, straight from the documentation.
pub fn heredoc_value(lines: &[String], crlf_last: bool, indented: bool, ind: usize) -> String {
    let n = if indented { ind } else { 0 };
    let mut out: Vec<String> = vec![];
    for (i, l) in lines.iter().enumerate() {
        let mut l = l.as_str();
        if i + 1 == lines.len() && crlf_last {
            l = l.strip_suffix('\r').unwrap_or(l);
        }
        let mut k = 0;
        while k < n && l.as_bytes().get(k) == Some(&b' ') {
            k += 1;
        }
        out.push(l[k..].to_string());
    }
    out.join("\n")
}

fn heredoc_line(s: &mut Src, mark: &str) -> String {
    match s.below(6) {
        0 => String::new(),
        1 => format!("{}{}", " ".repeat(s.below(7)), s.pick(&["x", "foo bar", "é", "\t", "", "#c", "\"q\"", "<<EOF", "${a}", "\\n"])),
        2 => {
            // near misses of the marker
            let pre = *s.pick(&["", " ", "    ", "x", "\t"]);
            let post = *s.pick(&["X", " ", "\t", "1", ",", "é", ";", " x"]);
            format!("{}{}{}", pre, mark, post)
        }
        3 => format!("{}{}", s.pick(&["x", "-", "<<", "é", "\u{a0}"]), mark),
        4 => " ".repeat(s.below(9)),
        _ => gen::text(s, 8).replace(['\n', '\r'], ""),
    }
}

fn is_end(line: &str, mark: &str) -> bool {
    let l = line.strip_suffix('\r').unwrap_or(line);
    l.trim_start_matches([' ', '\t']) == mark
}

/// text (without what precedes), value
fn gen_heredoc(s: &mut Src, c: &mut Ctx) -> (String, String) {
    let mark = s.pick(MARKS).to_string();
    let indented = s.bool();
    let ind = if s.bool() { s.below(6) } else { 0 };
    let crlf = s.weighted(&[60, 25, 15]);
    let mut e = |s: &mut Src| match crlf {
        0 => "\n",
        1 => "\r\n",
        _ => *s.pick(&["\n", "\r\n"]),
    };
    let n = s.weighted(&[10, 20, 30, 20, 10, 10]);
    let mut t = format!("<<{}{}{}", if indented { "-" } else { "" }, mark, e(s));
    let mut lines: Vec<String> = vec![];
    for _ in 0..n {
        let mut l = heredoc_line(s, &mark);
        if is_end(&l, &mark) {
            l.push('x');
        }
        let eol = e(s);
        t.push_str(&l);
        t.push_str(eol);
        lines.push(if eol == "\r\n" { format!("{}\r", l) } else { l });
    }
    // the closing line: spaces, or tabs in the plain form (tabs in the indented form are documented as bad output)
    let lead = if indented { " ".repeat(ind) } else { (0..ind).map(|_| *s.pick(&[' ', '\t'])).collect() };
    t.push_str(&lead);
    t.push_str(&mark);
    c.nontrivial_if(n >= 2);
    c.label(if indented { "indented" } else { "plain" });
    c.label_if(n == 0, "empty");
    c.label_if(indented && ind > 0 && lines.iter().any(|l| l.bytes().take_while(|b| *b == b' ').count() < ind), "line indented less than the marker");
    (t, heredoc_value(&lines, true, indented, ind))
}

fn c06_lines(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (t, want) = gen_heredoc(s, c);
    let tail = *s.pick(&["\n", "\r\n", "\n\n", "\nEOF\n", "\n  EOF\nx\n", "\nE\n"]);
    let text = format!("{}{}", t, tail);
    c.show = format!("{:?}", text);
    for (name, r) in [("heredoc_string", p::string::heredoc_string(CompleteStr(&text))), ("string", p::string::string(CompleteStr(&text)))] {
        match r {
            Ok((rest, v)) => {
                same(name, &v.to_string(), &want)?;
                same("rest", &rest.0, &tail)?;
            }
            Err(e) => return Err(format!("{} rejected a heredoc: {:?}", name, e)),
        }
    }
    let doc = format!("a = {}\nb = 1\n", t);
    let b = parse_str(&doc).map_err(|e| format!("rejected: {}", disp(&e)))?;
    same("document", &read_body(&b), &vec![MElem::Attr("a".into(), MExpr::Str(want.clone())), MElem::Attr("b".into(), MExpr::Num("1".into()))])?;
    let m = value::from_str(&doc, None).map_err(|e| format!("rejected by the value parser: {}", disp(&e)))?;
    same("value document", &read_map(&m), &OMap::un(vec![(OKey::Ident("a".into()), OVal::Str(want)), (OKey::Ident("b".into()), OVal::Int(1))]))
}

fn c06_mixed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mark = s.pick(MARKS).to_string();
    let blanks = |s: &mut Src, n: usize| -> String { (0..n).map(|_| *s.pick(&[' ', '\t', ' '])).collect() };
    let lead = {
        let n = s.range(1, 6);
        blanks(s, n)
    };
    let mut lines = vec![];
    for _ in 0..s.range(1, 5) {
        let n = s.below(9);
        let mut l = blanks(s, n);
        if !s.chance(1, 5) {
            l.push_str(&heredoc_line(s, &mark));
        }
        if is_end(&l, &mark) {
            l.push('x');
        }
        lines.push(l);
    }
    let t = format!("<<-{}\n{}\n{}{}", mark, lines.join("\n"), lead, mark);
    let text = format!("{}\n", t);
    c.show = format!("{:?}", text);
    c.nontrivial_if(lines.iter().any(|l| l.starts_with(' ')));
    let (rest, v) = p::string::heredoc_string(CompleteStr(&text)).map_err(|e| format!("rejected: {:?}", e))?;
    same("rest", &rest.0, &"\n")?;
    let got: Vec<&str> = v.split('\n').collect();
    same("number of lines", &got.len(), &lines.len())?;
    let tabs = lead.contains('\t');
    c.label_if(tabs, "tab before the marker");
    let n = lead.chars().count();
    let lost: Vec<usize> = {
        let mut o = vec![];
        for (g, l) in got.iter().zip(&lines) {
            match l.strip_suffix(g) {
                Some(cut) if cut.bytes().all(|b| b == b' ') && cut.len() <= n => o.push(cut.len()),
                _ => return Err(format!("line {:?} became {:?} in front of a marker behind {:?}", l, g, lead)),
            }
        }
        o
    };
    // one amount for the whole heredoc, whatever a tab counts for: lines that have it lose it in full
    let most = lost.iter().copied().max().unwrap_or(0);
    for (k, l) in lost.iter().zip(&lines) {
        let spaces = l.bytes().take_while(|b| *b == b' ').count();
        same(&format!("spaces taken from {:?}", l), k, &most.min(spaces))?;
    }
    if !tabs {
        let spaces = lines.iter().map(|l| l.bytes().take_while(|b| *b == b' ').count()).max().unwrap_or(0);
        same("most spaces taken", &most, &n.min(spaces))?;
    }
    let doc = format!("a = {}\n", t);
    let b = parse_str(&doc).map_err(|e| format!("rejected: {}", disp(&e)))?;
    same("document", &read_body(&b), &vec![MElem::Attr("a".into(), MExpr::Str(v.to_string()))])?;
    let m = value::from_str(&doc, None).map_err(|e| format!("rejected by the value parser: {}", disp(&e)))?;
    same("value document", &read_map(&m), &OMap::un(vec![(OKey::Ident("a".into()), OVal::Str(v.to_string()))]))
}

fn c06_in_place(s: &mut Src, c: &mut Ctx) -> CaseResult {
    c.nontrivial = true;
    let mut v = vec![];
    let mut texts = vec![];
    for _ in 0..4 {
        let (t, w) = gen_heredoc(s, c);
        texts.push(t);
        v.push(w);
    }
    c.nontrivial = true;
    let q = |i: usize| MExpr::Str(v[i].clone());
    let doc = format!("t = [{}\n, 1, {}\n]\nb \"x\" {{\n  o = {{\n k = {}\n z = true\n }}\n  h = {}\n}}\n", texts[0], texts[1], texts[2], texts[3]);
    c.show = format!("{:?}", doc);
    let b = parse_str(&doc).map_err(|e| format!("rejected: {}", disp(&e)))?;
    let want = vec![
        MElem::Attr("t".into(), MExpr::Tuple(vec![q(0), MExpr::Num("1".into()), q(1)])),
        MElem::Block(MBlock {
            ty: "b".into(),
            labels: vec![MLabel::Lit("x".into())],
            body: vec![
                MElem::Attr("o".into(), MExpr::Object(vec![(MKey::Ident("k".into()), q(2)), (MKey::Ident("z".into()), MExpr::Bool(true))])),
                MElem::Attr("h".into(), q(3)),
            ],
        }),
    ];
    same("document", &read_body(&b), &want)?;
    let m = value::from_str(&doc, None).map_err(|e| format!("rejected by the value parser: {}", disp(&e)))?;
    let q = |i: usize| OVal::Str(v[i].clone());
    let id = |s: &str| OKey::Ident(s.into());
    let want = OMap::un(vec![
        (id("t"), OVal::List(vec![q(0), OVal::Int(1), q(1)])),
        (
            id("b"),
            OVal::Block(OBlock {
                merged: false,
                entries: vec![(vec!["x".into()], OMap::un(vec![(id("o"), OVal::Object(vec![OMap::un(vec![(id("k"), q(2)), (id("z"), OVal::Bool(true))])])), (id("h"), q(3))]))],
            }),
        ),
    ]);
    same("value document", &read_map(&m), &want)
}

fn c06_unterminated(s: &mut Src, c: &mut Ctx) -> CaseResult {
    c.nontrivial = true;
    let mark = s.pick(MARKS).to_string();
    // sometimes the opening line is not clean
    let dirty = s.chance(1, 4);
    let before = dirty && s.bool();
    let mut t = format!("<<{}", s.pick(&["", "-"]));
    if before {
        t.push_str(s.pick(&["~", " ", "\t", "'", "\"", "--", "<", "!", "\\", "+", ".", "=", "-~", "~-", "(", "$"]));
    }
    t.push_str(&mark);
    let eol = *s.pick(&["\n", "\r\n"]);
    if dirty && !before {
        t.push_str(s.pick(&[" ", "-", "\t", " x", "#", "\"", "'", ",", ";", "\\", " # c", "/* c */", ".", ":", "\u{a0}"]));
    }
    t.push_str(eol);
    for _ in 0..s.below(4) {
        let mut l = heredoc_line(s, &mark);
        if is_end(&l, &mark) {
            l.push('x');
        }
        t.push_str(&l);
        t.push_str(eol);
    }
    if dirty {
        t.push_str(&mark);
        t.push_str(eol);
    } else if s.bool() {
        // the marker on the last line, without a line break
        t.push_str(&mark);
    }
    let doc = format!("a = {}", t);
    c.show = format!("{:?}", doc);
    ensure!(p::string::heredoc_string(CompleteStr(&t)).is_err(), "unterminated heredoc accepted");
    ensure!(parse_str(&doc).is_err(), "document with an unterminated heredoc accepted");
    ensure!(value::from_str(&doc, None).is_err(), "value document with an unterminated heredoc accepted");
    Ok(())
}

// ------------------------------------------------------------------ C09

fn names_agree(n: &str, c: &mut Ctx) -> CaseResult {
    if !judged(n) || n.contains(['\n', '\r', '"', '#', '/', '{', '}', '=', ' ', '\t', ',']) {
        c.discard = true;
        return Ok(());
    }
    let whole = matches!(refp::identifier(n, 0), Ok((_, q)) if q == n.len());
    c.nontrivial_if(!n.is_ascii() || !whole);
    c.label(if whole { "legal name" } else { "illegal name" });
    // prefix and rest
    let got = p::identifier::identifier(CompleteStr(n)).ok().map(|(r, v)| (v.to_string(), n.len() - r.0.len()));
    same("identifier", &got, &refp::identifier(n, 0).ok())?;
    let name = n.to_string();
    let one = || MExpr::Num("1".into());
    let cases: Vec<(&str, String, MBody)> = vec![
        ("attribute", format!("{} = 1\n", n), vec![MElem::Attr(name.clone(), one())]),
        ("attribute without spaces", format!("{}=1", n), vec![MElem::Attr(name.clone(), one())]),
        ("block type", format!("{} {{}}\n", n), vec![MElem::Block(MBlock { ty: name.clone(), labels: vec![], body: vec![] })]),
        ("block type", format!("{}{{\n}}\n", n), vec![MElem::Block(MBlock { ty: name.clone(), labels: vec![], body: vec![] })]),
        ("label", format!("a {} {{}}\n", n), vec![MElem::Block(MBlock { ty: "a".into(), labels: vec![MLabel::Ident(name.clone())], body: vec![] })]),
        ("object key", format!("a = {{ {} = 1 }}\n", n), vec![MElem::Attr("a".into(), MExpr::Object(vec![(MKey::Ident(name.clone()), one())]))]),
        (
            "nested attribute",
            format!("b \"x\" {{\n {} = 1\n}}\n", n),
            vec![MElem::Block(MBlock { ty: "b".into(), labels: vec![MLabel::Lit("x".into())], body: vec![MElem::Attr(name.clone(), one())] })],
        ),
        ("one-line attribute", format!("b {{ {} = 1 }}\n", n), vec![MElem::Block(MBlock { ty: "b".into(), labels: vec![], body: vec![MElem::Attr(name.clone(), one())] })]),
    ];
    for (what, text, want) in cases {
        let got = parse_str(&text).ok().map(|b| read_body(&b));
        if whole {
            same(what, &got, &Some(want))?;
        } else if n.is_empty() {
            continue;
        } else {
            // never as that name; the reference knows what else it may be
            ensure!(got.as_ref() != Some(&want), "{}: illegal name {:?} accepted", what, n);
            same(what, &got, &refp::document(&text))?;
        }
    }
    let int = |k: OKey| (k, OVal::Int(1));
    let cases: Vec<(&str, String, OMap)> = vec![
        ("key", format!("{} = 1\n", n), OMap::un(vec![int(OKey::Ident(name.clone()))])),
        ("block type", format!("{} \"l\" {{}}\n", n), OMap::un(vec![(OKey::Ident(name.clone()), OVal::Block(OBlock { merged: false, entries: vec![(vec!["l".into()], OMap::un(vec![]))] }))])),
        ("unlabelled block type", format!("{} {{}}\n", n), OMap::un(vec![(OKey::Ident(name.clone()), OVal::Object(vec![OMap::un(vec![])]))])),
        ("nested key", format!("a = {{ {} = 1, }}\n", n), OMap::un(vec![(OKey::Ident("a".into()), OVal::Object(vec![OMap::un(vec![int(OKey::Ident(name.clone()))])]))])),
    ];
    for (what, text, want) in cases {
        let got = value::from_str(&text, None).ok().map(|b| read_map(&b));
        if whole {
            same(what, &got, &Some(want))?;
        } else if !n.is_empty() {
            same(what, &got, &crate::refold::document(&text))?;
        }
    }
    Ok(())
}

fn c09_names(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut n = gen::ident(s);
    if s.chance(1, 2) {
        let k = s.below(n.len() + 1);
        let mut k = k;
        while !n.is_char_boundary(k) {
            k -= 1;
        }
        let x = match s.below(3) {
            0 => *s.pick(&['-', '_', '.', '0', '9', '\u{301}', '\u{b7}', '\u{200d}', '\u{200c}', '٣', '\u{2e2f}', '゛', '℘', '²', '½', '\u{a0}', '\u{ad}', '$', '@', '\'', ':', '\u{203f}', 'ª', '１']),
            1 => gen::ch(s),
            _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('-'),
        };
        n.insert(k, x);
    }
    c.show = n.clone();
    names_agree(&n, c)
}

fn c09_sweep(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let u = match s.below(3) {
        0 => s.below(0x3000),
        1 => s.below(0x20000),
        _ => s.below(0x110000),
    };
    let Some(ch) = char::from_u32(u as u32) else {
        c.discard = true;
        return Ok(());
    };
    c.show = format!("U+{:04X}", u);
    names_agree(&ch.to_string(), c)?;
    if c.discard {
        return Ok(());
    }
    names_agree(&format!("a{}", ch), c)?;
    names_agree(&format!("_{}b", ch), c)?;
    names_agree(&format!("{}-", ch), c)
}

fn c09_labels(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.len(8);
    let labels: Vec<MLabel> = (0..n).map(|_| gen::label(s)).collect();
    let b = vec![MElem::Block(MBlock { ty: gen::ident(s), labels, body: if s.bool() { vec![] } else { vec![MElem::Attr("a".into(), MExpr::Null)] } })];
    let mut l = Lay::new(s);
    l.document(s, &b);
    c.show = l.out.clone();
    c.nontrivial_if(n >= 2);
    let t = parse_str(&l.out).map_err(|e| format!("legal document rejected: {}", disp(&e)))?;
    same("labels", &read_body(&t), &b)?;
    if let MElem::Block(b) = &b[0] {
        if let p::body::BodyElement::Block(t) = &t[0] {
            for (x, y) in t.labels.iter().zip(&b.labels) {
                same("as_str", &x.as_str(), &y.text())?;
                same("as_cow", &x.as_cow().to_string(), &y.text().to_string())?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C22

fn boundaries(t: &str) -> Vec<usize> {
    (0..t.len()).filter(|i| t.is_char_boundary(*i)).collect()
}

fn needle(s: &mut Src) -> &'static str {
    s.pick(&["a", "b", "ab", "aab", "é", "aé", "中", "😀", "\n", "\nE", "*/", "E", "ba"])
}

fn hay(s: &mut Src) -> String {
    let n = s.len(24);
    (0..n).map(|_| *s.pick(&['a', 'b', 'a', 'é', '中', '😀', '\n', 'E', '*', '/', ' ', '\u{301}'])).collect()
}

/// succeeds on a run of at least two 'a'
fn two_a(i: CompleteStr) -> IResult<CompleteStr, usize, u32> {
    let n = i.0.bytes().take_while(|b| *b == b'a').count();
    if n >= 2 {
        Ok((CompleteStr(&i.0[n..]), n))
    } else {
        Err(nom::Err::Error(nom::simple_errors_context(i)))
    }
}

/// "ab"; gives up for good behind 'a' or '*', asks for more behind 'é', fails otherwise
fn picky(i: CompleteStr) -> IResult<CompleteStr, CompleteStr, u32> {
    let e = nom::simple_errors_context(i);
    match i.0.chars().next() {
        Some('a') if i.0[1..].starts_with('b') => Ok((CompleteStr(&i.0[2..]), CompleteStr(&i.0[..2]))),
        Some('a') | Some('*') => Err(nom::Err::Failure(e)),
        Some('é') => Err(nom::Err::Incomplete(nom::Needed::Size(1))),
        _ => Err(nom::Err::Error(e)),
    }
}

mod nom {
    pub use ::nom::*;
    pub fn simple_errors_context<I>(i: I) -> ::nom::Context<I, u32> {
        ::nom::Context::Code(i, ::nom::ErrorKind::Tag)
    }
}

fn c22_text(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = hay(s);
    let (x, y) = (needle(s), needle(s));
    c.show = format!("{:?} in {:?}", (x, y), t);
    // reference: the first character boundary at which either needle starts; the first alternative wins
    let want = boundaries(&t).into_iter().find_map(|i| {
        let r = &t[i..];
        if r.starts_with(x) {
            Some((i, x))
        } else if r.starts_with(y) {
            Some((i, y))
        } else {
            None
        }
    });
    c.nontrivial_if(matches!(want, Some((i, _)) if i > 0));
    c.label_if(want.is_none(), "no match");
    type Tri<'a> = Option<(String, String, String)>;
    let expect: Tri = want.map(|(i, n)| (t[i + n.len()..].to_string(), t[..i].to_string(), n.to_string()));
    fn cs<'a>(i: CompleteStr<'a>, x: &str, y: &str) -> IResult<CompleteStr<'a>, (CompleteStr<'a>, CompleteStr<'a>), u32> {
        take_till_match!(i, alt!(tag!(x) | tag!(y)))
    }
    let got: Tri = cs(CompleteStr(&t), x, y).ok().map(|(r, (a, b))| (r.0.to_string(), a.0.to_string(), b.0.to_string()));
    same("take_till_match on CompleteStr", &got, &expect)?;
    if let Some((r, a, m)) = &got {
        ensure!(format!("{}{}{}", a, m, r) == t, "the parts do not concatenate to the input");
    }
    fn st<'a>(i: &'a str, x: &str) -> IResult<&'a str, (&'a str, &'a str), u32> {
        take_till_match!(i, tag!(x))
    }
    let got: Tri = st(&t, x).ok().map(|(r, (a, b))| (r.to_string(), a.to_string(), b.to_string()));
    let expect: Tri = t.find(x).map(|i| (t[i + x.len()..].to_string(), t[..i].to_string(), x.to_string()));
    same("take_till_match on &str", &got, &expect)?;
    fn run(i: CompleteStr) -> IResult<CompleteStr, (CompleteStr, usize), u32> {
        take_till_match!(i, call!(two_a))
    }
    fn run2(i: CompleteStr) -> IResult<CompleteStr, (CompleteStr, usize), u32> {
        take_till_match!(i, two_a)
    }
    let expect = t.find("aa").map(|i| {
        let n = t[i..].bytes().take_while(|b| *b == b'a').count();
        (t[i + n..].to_string(), t[..i].to_string(), n)
    });
    for f in [run, run2] {
        let got = f(CompleteStr(&t)).ok().map(|(r, (a, n))| (r.0.to_string(), a.0.to_string(), n));
        same("take_till_match of a function", &got, &expect)?;
    }
    // how the inner parser fails at a position, or what it looks at, does not matter
    fn hard(i: CompleteStr) -> IResult<CompleteStr, (CompleteStr, CompleteStr), u32> {
        take_till_match!(i, call!(picky))
    }
    let expect = boundaries(&t).into_iter().find_map(|i| picky(CompleteStr(&t[i..])).ok().map(|(r, m)| (r.0.to_string(), t[..i].to_string(), m.0.to_string())));
    let got = hard(CompleteStr(&t)).ok().map(|(r, (a, m))| (r.0.to_string(), a.0.to_string(), m.0.to_string()));
    same("take_till_match of a parser that fails in several ways", &got, &expect)?;
    // a parser that succeeds without consuming
    fn look(i: CompleteStr) -> IResult<CompleteStr, (CompleteStr, CompleteStr), u32> {
        fn ahead(i: CompleteStr) -> IResult<CompleteStr, CompleteStr, u32> {
            peek!(i, tag!("ab"))
        }
        take_till_match!(i, call!(ahead))
    }
    let expect = t.find("ab").map(|i| (t[i..].to_string(), t[..i].to_string(), "ab".to_string()));
    let got = look(CompleteStr(&t)).ok().map(|(r, (a, m))| (r.0.to_string(), a.0.to_string(), m.0.to_string()));
    same("take_till_match of a lookahead", &got, &expect)?;
    Ok(())
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    (0..h.len()).find(|i| h[*i..].starts_with(n))
}

fn c22_bytes(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t: Vec<u8> = match s.below(3) {
        0 => hay(s).into_bytes(),
        _ => {
            let n = s.len(20);
            (0..n).map(|_| *s.pick(&[b'a', b'b', 0u8, 0xff, 0xc3, 0xa9, b'\n'])).collect()
        }
    };
    let x: &'static [u8] = *s.pick(&[b"a" as &[u8], b"b", b"ab", b"\xc3", b"\xa9", b"\xff\x00", b"\n", b"aab", b"\x00"]);
    c.show = format!("{:?} in {:?}", x, t);
    let want = find(&t, x);
    c.nontrivial_if(matches!(want, Some(i) if i > 0));
    c.label_if(want.is_none(), "no match");
    let expect = want.map(|i| (t[i + x.len()..].to_vec(), t[..i].to_vec(), x.to_vec()));
    fn sl<'a>(i: &'a [u8], x: &[u8]) -> IResult<&'a [u8], (&'a [u8], &'a [u8]), u32> {
        take_till_match!(i, tag!(x))
    }
    let got = sl(&t, x).ok().map(|(r, (a, b))| (r.to_vec(), a.to_vec(), b.to_vec()));
    same("take_till_match on &[u8]", &got, &expect)?;
    fn cb<'a>(i: CompleteByteSlice<'a>, x: &[u8]) -> IResult<CompleteByteSlice<'a>, (CompleteByteSlice<'a>, CompleteByteSlice<'a>), u32> {
        take_till_match!(i, tag!(x))
    }
    let got = cb(CompleteByteSlice(&t), x).ok().map(|(r, (a, b))| (r.0.to_vec(), a.0.to_vec(), b.0.to_vec()));
    same("take_till_match on CompleteByteSlice", &got, &expect)
}

fn c22_indices(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = if s.bool() { hay(s) } else { gen::text(s, 20) };
    c.show = format!("{:?}", t);
    c.nontrivial_if(!t.is_ascii());
    let want = boundaries(&t);
    // bounded, in case an iterator never ends
    let lim = t.len() + 3;
    same("&str", &t.as_str().safe_indices().take(lim).collect::<Vec<_>>(), &want)?;
    same("CompleteStr", &CompleteStr(&t).safe_indices().take(lim).collect::<Vec<_>>(), &want)?;
    let all: Vec<usize> = (0..t.len()).collect();
    same("&[u8]", &t.as_bytes().safe_indices().take(lim).collect::<Vec<_>>(), &all)?;
    same("CompleteByteSlice", &CompleteByteSlice(t.as_bytes()).safe_indices().take(lim).collect::<Vec<_>>(), &all)?;
    let input: Input<&[u8]> = Input { inner: t.as_bytes(), at_eof: s.bool() };
    same("Input", &input.safe_indices().take(lim).collect::<Vec<_>>(), &all)?;
    // the leading run of characters satisfying a predicate
    let p = |c: char| c.is_alphanumeric() || c == '_';
    let n = t.find(|c| !p(c)).unwrap_or(t.len());
    let got = while_predicate1(CompleteStr(&t), p).ok().map(|(r, v)| (v.0.to_string(), r.0.to_string()));
    let want = if n == 0 { None } else { Some((t[..n].to_string(), t[n..].to_string())) };
    same("while_predicate1", &got, &want)
}

// ------------------------------------------------------------------ C23

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    d.finish()
}

fn two_texts(s: &mut Src) -> (String, String) {
    let a = if s.chance(1, 2) { gen::ident(s) } else { gen::text(s, 6) };
    let b = match s.below(6) {
        0 | 1 | 2 => a.clone(),
        3 => {
            let mut b = a.clone();
            b.push(gen::ch(s));
            b
        }
        4 => match s.below(5) {
            0 => a.to_uppercase(),
            1 => format!("\"{}\"", a),
            2 => format!(" {}", a),
            3 => {
                let mut b = a.clone();
                b.pop();
                b
            }
            _ => a.replace('a', "á"),
        },
        _ => gen::text(s, 6),
    };
    (a, b)
}

fn label_of(t: &str, k: usize) -> BlockLabel<'_> {
    match k {
        0 => BlockLabel::Identifier(Cow::Borrowed(t)),
        1 => BlockLabel::Identifier(Cow::Owned(t.to_string())),
        2 => BlockLabel::StringLiteral(t.to_string()),
        _ => BlockLabel::from(t),
    }
}

fn key_of(t: &str, k: usize) -> Key<'_> {
    match k {
        0 => Key::new_identifier(t),
        1 => Key::new_identifier_owned(t.to_string()),
        2 => Key::new_string(t),
        3 => Key::new_string_owned(t.to_string()),
        4 => Key::from(t),
        _ => Key::from(t.to_string()),
    }
}

fn ident_of(t: &str, k: usize) -> ObjectElementIdentifier<'_> {
    match k {
        0 => ObjectElementIdentifier::Identifier(Cow::Borrowed(t)),
        1 => ObjectElementIdentifier::Identifier(Cow::Owned(t.to_string())),
        _ => ObjectElementIdentifier::from(t),
    }
}

fn expression_key(t: &str, owned: bool) -> ObjectElementIdentifier<'_> {
    ObjectElementIdentifier::Expression(if owned { Cow::Owned(t.to_string()) } else { Cow::Borrowed(t) })
}

fn c23_pairs(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b) = two_texts(s);
    let eq = a == b;
    c.show = format!("{:?} {:?}", a, b);
    c.label(if eq { "same text" } else { "different text" });
    let (i, j) = (s.below(4), s.below(4));
    c.nontrivial_if(i != j);
    let (x, y) = (label_of(&a, i), label_of(&b, j));
    ensure!((x == y) == eq && (y == x) == eq && (x != y) != eq, "labels {:?} {:?}: equality is {}", x, y, x == y);
    ensure!((x == b.as_str()) == eq && (x == b) == eq, "label {:?} against text {:?}", x, b);
    if eq {
        ensure!(h(&x) == h(&y), "equal labels hash differently: {:?} {:?}", x, y);
    }
    ensure!(h(&x) == h(a.as_str()), "label {:?} hashes differently from its text", x);
    let bs: &str = x.borrow();
    same("label as text", &bs, &a.as_str())?;
    same("as_str", &x.as_str(), &a.as_str())?;
    ensure!(x.as_cow() == a.as_str(), "as_cow of {:?}", x);
    let m: HashMap<BlockLabel, usize> = vec![(x.clone(), 1)].into_iter().collect();
    ensure!(m.get(b.as_str()).is_some() == eq && m.get(&y).is_some() == eq && m.contains_key(a.as_str()), "label lookup of {:?} under {:?}", b, x);

    let (i, j) = (s.below(6), s.below(6));
    c.nontrivial_if(i != j);
    let (x, y) = (key_of(&a, i), key_of(&b, j));
    ensure!((x == y) == eq && (y == x) == eq && (x != y) != eq, "keys {:?} {:?}: equality is {}", x, y, x == y);
    if eq {
        ensure!(h(&x) == h(&y), "equal keys hash differently: {:?} {:?}", x, y);
    }
    ensure!(h(&x) == h(a.as_str()), "key {:?} hashes differently from its text", x);
    let bs: &str = x.borrow();
    same("key as text", &bs, &a.as_str())?;
    same("deref", &&*x, &a.as_str())?;
    let m: HashMap<Key, usize> = vec![(x.clone(), 1)].into_iter().collect();
    ensure!(m.get(b.as_str()).is_some() == eq && m.get(&y).is_some() == eq && m.contains_key(a.as_str()), "key lookup of {:?} under {:?}", b, x);
    let o = x.as_owned();
    ensure!(o == x && h(&o) == h(&x), "owned key {:?}", o);
    ensure!(x.clone().unwrap() == a.as_str(), "unwrap of {:?}", x);

    let (i, j) = (s.below(3), s.below(3));
    let (x, y) = (ident_of(&a, i), ident_of(&b, j));
    ensure!((x == y) == eq && (y == x) == eq, "object keys {:?} {:?}: equality is {}", x, y, x == y);
    ensure!((x == b.as_str()) == eq && (x == b) == eq, "object key {:?} against text {:?}", x, b);
    if eq {
        ensure!(h(&x) == h(&y), "equal object keys hash differently: {:?} {:?}", x, y);
    }
    let bs: &str = x.borrow();
    same("object key as text", &bs, &a.as_str())?;
    ensure!(x.as_str() == a.as_str(), "as_str of {:?}", x);
    let m: HashMap<ObjectElementIdentifier, usize> = vec![(x.clone(), 1)].into_iter().collect();
    ensure!(m.get(b.as_str()).is_some() == eq && m.get(&y).is_some() == eq && m.contains_key(a.as_str()), "object key lookup of {:?} under {:?}", b, x);
    let o = x.as_owned();
    ensure!(o == x && h(&o) == h(&x), "owned object key {:?}", o);

    // A key that is an expression is equal to the same expression, and to nothing else
    let (e, f) = (expression_key(&a, s.bool()), expression_key(&b, s.bool()));
    ensure!((e == f) == eq && (f == e) == eq && (e != f) != eq, "expression keys {:?} {:?}: equality is {}", e, f, e == f);
    ensure!(e != y && y != e, "{:?} and {:?} are equal", e, y);
    ensure!(!(e == b.as_str()) && !(e == b) && !(e == a.as_str()), "expression key {:?} equals a text", e);
    if eq {
        ensure!(h(&e) == h(&f), "equal expression keys hash differently: {:?} {:?}", e, f);
    }
    let m: HashMap<ObjectElementIdentifier, usize> = vec![(e.clone(), 1), (x.clone(), 2)].into_iter().collect();
    same("keys in the map", &m.len(), &2)?;
    same("expression key", &m.get(&f).copied(), &if eq { Some(1) } else { None })?;
    same("name key", &m.get(&y).copied(), &if eq { Some(2) } else { None })?;
    let o = e.as_owned();
    ensure!(o == e && h(&o) == h(&e), "owned expression key {:?}", o);
    Ok(())
}

fn c23_collections(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.range(1, 12);
    let mut texts: Vec<String> = vec![];
    let pool: Vec<String> = (0..4).map(|_| if s.bool() { gen::small_name(s) } else { gen::text(s, 4) }).collect();
    for _ in 0..n {
        texts.push(s.pick(&pool).clone());
    }
    let distinct: HashSet<&str> = texts.iter().map(|t| t.as_str()).collect();
    c.nontrivial_if(distinct.len() < texts.len());
    c.show = format!("{:?}", texts);
    let mut model: HashMap<String, usize> = HashMap::new();
    let mut labels: HashMap<BlockLabel, usize> = HashMap::new();
    let mut keys: HashMap<Key, usize> = HashMap::new();
    let mut kv: ferrous_chloride::KeyValuePairs<Key, usize> = ferrous_chloride::KeyValuePairs::Merged(Default::default());
    let mut un: ferrous_chloride::KeyValuePairs<Key, usize> = ferrous_chloride::KeyValuePairs::Unmerged(vec![]);
    for (i, t) in texts.iter().enumerate() {
        model.insert(t.clone(), i);
        labels.insert(label_of(t, s.below(4)), i);
        keys.insert(key_of(t, s.below(6)), i);
        kv.extend(std::iter::once((key_of(t, s.below(6)), i)));
        un.extend(std::iter::once((key_of(t, s.below(6)), i)));
    }
    same("labels", &labels.len(), &model.len())?;
    same("keys", &keys.len(), &model.len())?;
    same("merged collection", &kv.len(), &model.len())?;
    same("unmerged collection", &un.len(), &texts.len())?;
    for t in pool.iter().chain(std::iter::once(&"absent".to_string())) {
        let w = model.get(t).copied();
        same("label", &labels.get(t.as_str()).copied(), &w)?;
        same("key", &keys.get(t.as_str()).copied(), &w)?;
        same("merged", &kv.get_single(t.as_str()).copied(), &w)?;
        for k in 0..6 {
            same("merged by key", &kv.get_single(&key_of(t, k)).copied(), &w)?;
            let all: Vec<usize> = un.get(&key_of(t, k)).map(|m| m.into_iter().copied().collect()).unwrap_or_default();
            let want: Vec<usize> = texts.iter().enumerate().filter(|(_, x)| *x == t).map(|(i, _)| i).collect();
            same("unmerged by key", &all, &want)?;
        }
        let want = texts.iter().position(|x| x == t);
        same("first", &un.get_single(t.as_str()).copied(), &want)?;
    }
    block_labels(s, &pool)
}

/// blocks are found by all of their labels, and by nothing else
fn block_labels(s: &mut Src, pool: &[String]) -> CaseResult {
    use ferrous_chloride::value::{Block, MapValues};
    let path = |s: &mut Src| -> Vec<String> { (0..s.range(0, 3)).map(|_| if s.chance(1, 6) { String::new() } else { s.pick(pool).clone() }).collect() };
    let paths: Vec<Vec<String>> = (0..s.range(1, 6)).map(|_| path(s)).collect();
    let body = |i: usize| MapValues::new_unmerged(vec![(Key::new_identifier("i"), ferrous_chloride::Value::Integer(i as i64))]);
    let un = Block::new_unmerged(paths.iter().enumerate().map(|(i, p)| (p.clone(), body(i))));
    let mut seen = HashSet::new();
    let distinct: Vec<(usize, &Vec<String>)> = paths.iter().enumerate().filter(|(_, p)| seen.insert(*p)).collect();
    let merged = match Block::new_merged(distinct.iter().map(|(i, p)| ((*p).clone(), body(*i)))) {
        Ok(m) => m,
        Err(e) => return Err(format!("different labels {:?} do not merge: {}", distinct, e)),
    };
    let number = |m: &MapValues| m["i"].unwrap_integer() as usize;
    let mut asked = paths.clone();
    asked.extend((0..3).map(|_| path(s)));
    for p in paths.iter() {
        let mut q = p.clone();
        match s.below(4) {
            0 => q.push(String::new()),
            1 => q.insert(0, String::new()),
            2 => q.retain(|l| !l.is_empty()),
            _ => q.reverse(),
        }
        asked.push(q);
        asked.push(vec![p.join(" ")]);
    }
    let (unb, mb) = (un.borrow_keys(), merged.borrow_keys());
    for p in &asked {
        let by: Vec<&str> = p.iter().map(|l| l.as_str()).collect();
        let want: Vec<usize> = paths.iter().enumerate().filter(|(_, x)| *x == p).map(|(i, _)| i).collect();
        let first = want.first().copied();
        let all = |r: Option<ferrous_chloride::OneOrMany<usize>>| -> Vec<usize> { r.map(|m| m.into_iter().collect()).unwrap_or_default() };
        let some = |r: Option<ferrous_chloride::OneOrMany<&MapValues>>| r.map(|m| ferrous_chloride::OneOrMany::Many(m.into_iter().map(|m| number(m)).collect()));
        let somes = |r: Option<ferrous_chloride::OneOrMany<&&MapValues>>| r.map(|m| ferrous_chloride::OneOrMany::Many(m.into_iter().map(|m| number(m)).collect()));
        same(&format!("blocks labelled {:?} of {:?}", p, paths), &all(some(un.get(p))), &want)?;
        same(&format!("blocks labelled {:?} of {:?}, borrowed", p, paths), &all(somes(unb.get::<[&str]>(&by))), &want)?;
        same(&format!("block labelled {:?} of {:?}", p, paths), &un.get_single(p).map(|m| number(m)), &first)?;
        same(&format!("block labelled {:?} of {:?}, borrowed", p, paths), &unb.get_single::<[&str]>(&by).map(|m| number(m)), &first)?;
        same(&format!("merged block labelled {:?} of {:?}", p, paths), &merged.get_single(p).map(|m| number(m)), &first)?;
        same(&format!("merged block labelled {:?} of {:?}, borrowed", p, paths), &mb.get_single::<[&str]>(&by).map(|m| number(m)), &first)?;
    }
    Ok(())
}
