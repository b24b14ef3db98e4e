//! C30: no hidden limits; and the share each other property has in it.
use crate::ensure;
use super::numbers;
use super::serde_props as sp;
use super::values;
use super::*;
use crate::gen;
use crate::model::*;
use crate::refold;
use crate::refp;
use ferrous_chloride::parser::block::Blocks;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::{parser, KeyValuePairs, Mergeable, OneOrMany, parse_reader, parse_slice, parse_str, value, AsOwned, MergeBehaviour, ScalarLength};
use std::collections::BTreeMap;
use std::io::Read;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Dim {
    Attrs,
    Blocks,
    Labels,
    Tuple,
    Object,
    Chars,
    Escapes,
    Lines,
    Indented,
    Deeper,
    Blank,
    Comment,
    Digits,
    Name,
    Depth,
}
use Dim::*;
const ALL: &[Dim] = &[Attrs, Blocks, Labels, Tuple, Object, Chars, Escapes, Lines, Indented, Deeper, Blank, Comment, Digits, Name, Depth];

/// the most of it: what costs the library or the oracle more than linear work is kept smaller
fn most(d: Dim, heavy: bool) -> usize {
    let n = match d {
        Attrs | Tuple | Object => 20_000,
        Blocks => 6_000,
        Labels => 1_200,
        Chars | Blank | Comment | Name => 140_000,
        Escapes | Lines | Indented => 20_000,
        Digits | Deeper => 2_000,
        Depth => 150,
    };
    if heavy {
        n
    } else {
        n.min(1_100)
    }
}

struct Big {
    dim: Dim,
    n: usize,
    text: String,
    body: MBody,
}

fn num(i: usize) -> MExpr {
    MExpr::Num(i.to_string())
}

/// A document around one part that occurs, or is long, or is deep `n` times.
fn big(s: &mut Src, c: &mut Ctx, dims: &[Dim], light: bool) -> Big {
    let dim = *s.pick(dims);
    let heavy = !light && s.chance(1, 5);
    let n = s.count(most(dim, heavy));
    big_of(s, c, dim, n)
}

fn big_of(s: &mut Src, c: &mut Ctx, dim: Dim, n: usize) -> Big {
    c.nontrivial_if(n > 32);
    c.label(match n {
        0..=32 => "up to 32",
        33..=255 => "up to 255",
        256..=1100 => "up to 1100",
        1101..=8191 => "up to 8191",
        _ => "more",
    });
    let mut text = String::new();
    let mut body = vec![];
    if s.bool() {
        text.push_str("first = 1\n");
        body.push(MElem::Attr("first".into(), num(1)));
    }
    let attr = |text: &mut String, body: &mut MBody, t: &str, e: MExpr| {
        text.push_str(&format!("it = {}\n", t));
        body.push(MElem::Attr("it".into(), e));
    };
    match dim {
        Attrs => {
            let same = s.chance(1, 8);
            for i in 0..n {
                let k = if same { "k".to_string() } else { format!("k{}", i) };
                text.push_str(&format!("{} = {}\n", k, i));
                body.push(MElem::Attr(k, num(i)));
            }
        }
        Blocks => {
            let types = s.range(1, 3);
            let labels = s.below(3);
            let distinct = s.bool();
            let one_line = s.chance(1, 3);
            for i in 0..n {
                let ty = ["b", "c", "d"][i % types];
                let l: Vec<MLabel> = (0..labels)
                    .map(|k| {
                        let t = if distinct && k == 0 { format!("l{}", i) } else { "l".to_string() };
                        if k % 2 == 0 {
                            MLabel::Lit(t)
                        } else {
                            MLabel::Ident(t)
                        }
                    })
                    .collect();
                let head: String = l.iter().map(|l| if let MLabel::Lit(t) = l { format!("\"{}\" ", t) } else { format!("{} ", l.text()) }).collect();
                if one_line {
                    text.push_str(&format!("{} {}{{ i = {} }}\n", ty, head, i));
                } else {
                    text.push_str(&format!("{} {}{{\n  i = {}\n}}\n", ty, head, i));
                }
                body.push(MElem::Block(MBlock { ty: ty.into(), labels: l, body: vec![MElem::Attr("i".into(), num(i))] }));
            }
        }
        Labels => {
            let lit = s.below(3);
            let mut labels = vec![];
            text.push_str("b");
            for i in 0..n {
                if lit == 0 || (lit == 1 && i % 2 == 0) {
                    labels.push(MLabel::Lit(format!("l{}", i)));
                    text.push_str(&format!(" \"l{}\"", i));
                } else {
                    labels.push(MLabel::Ident(format!("l{}", i)));
                    text.push_str(&format!(" l{}", i));
                }
            }
            text.push_str(" {\n  i = 1\n}\n");
            body.push(MElem::Block(MBlock { ty: "b".into(), labels, body: vec![MElem::Attr("i".into(), num(1))] }));
        }
        Tuple => {
            let sep = *s.pick(&[",", ", ", ",\n"]);
            let mut t = String::from("[");
            let kind = s.below(3);
            let mut v = vec![];
            for i in 0..n {
                let (x, e) = match kind {
                    0 => (i.to_string(), num(i)),
                    1 => (format!("\"e{}\"", i), MExpr::Str(format!("e{}", i))),
                    _ => (format!("[{}]", i), MExpr::Tuple(vec![num(i)])),
                };
                if i > 0 {
                    t.push_str(sep);
                }
                t.push_str(&x);
                v.push(e);
            }
            if n > 0 && s.bool() {
                t.push(',');
            }
            t.push(']');
            attr(&mut text, &mut body, &t, MExpr::Tuple(v));
        }
        Object => {
            // line breaks are what both models take
            let sep = *s.pick(&["\n", "\n", ", "]);
            let quoted = s.chance(1, 4);
            let mut t = format!("{{{}", if sep == "\n" { "\n" } else { " " });
            let mut v = vec![];
            for i in 0..n {
                if i > 0 {
                    t.push_str(sep);
                }
                let k = if quoted { format!("\"k{}\"", i) } else { format!("k{}", i) };
                t.push_str(&format!("{} = {}", k, i));
                v.push((if quoted { MKey::Expr(k) } else { MKey::Ident(k) }, num(i)));
            }
            t.push_str(if sep == "\n" && n > 0 { "\n}" } else { " }" });
            attr(&mut text, &mut body, &t, MExpr::Object(v));
        }
        Chars => {
            let unit = *s.pick(&["a", "é", "中", "😀", " ", "ab c", "//", "#", "{}", "é "]);
            let lead = "x".repeat(s.below(5));
            let v = format!("{}{}", lead, unit.repeat(n / unit.len()));
            attr(&mut text, &mut body, &format!("\"{}\"", v), MExpr::Str(v));
        }
        Escapes => {
            let (e, v) = *s.pick(&[("\\n", "\n"), ("\\\"", "\""), ("\\\\", "\\"), ("\\u00e9", "é"), ("\\U0001F600", "😀"), ("\\x41", "A"), ("\\101", "A"), ("a\\tb", "a\tb")]);
            attr(&mut text, &mut body, &format!("\"{}\"", e.repeat(n)), MExpr::Str(v.repeat(n)));
        }
        Lines | Indented => {
            let pad = if dim == Indented { s.range(1, 6) } else { 0 };
            let unit = *s.pick(&["line", "", "é", "  more", "EOFX", "x EOF"]);
            let eol = *s.pick(&["\n", "\n", "\r\n"]);
            let mut v = vec![];
            let mut t = format!("<<{}EOF{}", if dim == Indented { "-" } else { "" }, eol);
            for i in 0..n {
                let own = if i % 7 == 3 { format!("{}", i) } else { unit.to_string() };
                t.push_str(&format!("{}{}{}", " ".repeat(pad), own, eol));
                v.push(own);
            }
            t.push_str(&format!("{}EOF", " ".repeat(pad)));
            attr(&mut text, &mut body, &t, MExpr::Str(v.join(eol)));
        }
        Deeper => {
            // a few lines around that much indentation
            let eol = *s.pick(&["\n", "\n", "\r\n"]);
            let mut v = vec![];
            let mut t = format!("<<-EOF{}", eol);
            for i in 0..s.range(1, 5) {
                let own = match s.below(5) {
                    0 => 0,
                    1 => s.below(n + 1),
                    2 => n + s.below(3),
                    _ => n,
                };
                let text = *s.pick(&["line", "é", "x  y", "", "EOFX"]);
                t.push_str(&format!("{}{}{}{}", " ".repeat(own), text, i, eol));
                v.push(format!("{}{}{}", " ".repeat(own.saturating_sub(n)), text, i));
            }
            t.push_str(&format!("{}EOF", " ".repeat(n)));
            attr(&mut text, &mut body, &t, MExpr::Str(v.join(eol)));
        }
        Blank => {
            let unit = *s.pick(&[" ", "\t", "\n", "\r\n", "\n\n", "# c\n", "// c\n", "/* c */", " \t", "/**/ "]);
            let t = unit.repeat(n / unit.len());
            match s.below(4) {
                0 => {
                    // between elements; a comment of the inline kind and blanks also begin a line
                    text.push_str(&t);
                    attr(&mut text, &mut body, "2", num(2));
                }
                1 => {
                    text.push_str(&format!("it = [1,{}2{}]\n", t, t));
                    body.push(MElem::Attr("it".into(), MExpr::Tuple(vec![num(1), num(2)])));
                }
                2 if !unit.contains('\n') => attr(&mut text, &mut body, &format!("{}2{}", t, t), num(2)),
                _ => {
                    text.push_str(&format!("b {{\n{}  it = 2\n{}}}\n", t, t));
                    body.push(MElem::Block(MBlock { ty: "b".into(), labels: vec![], body: vec![MElem::Attr("it".into(), num(2))] }));
                }
            }
        }
        Comment => {
            let unit = *s.pick(&["c", "é", "😀", "*", "#", "/ ", "= 1", "\""]);
            let t = unit.repeat(n / unit.len());
            match s.below(3) {
                0 => text.push_str(&format!("it = 2 # {}\n", t)),
                1 => text.push_str(&format!("// {}\nit = 2\n", t)),
                _ => text.push_str(&format!("it = /* {} */ 2\n", t)),
            }
            body.push(MElem::Attr("it".into(), num(2)));
        }
        Digits => {
            let d = *s.pick(&["0", "1", "9", "37"]);
            let d = d.repeat(n.max(2) / d.len());
            let sign = *s.pick(&["", "-", "+"]);
            let t = match s.below(5) {
                0 => format!("{}{}", sign, d),
                1 => format!("{}{}7", sign, "0".repeat(n)),
                2 => format!("{}0.{}5", sign, d),
                3 => format!("{}{}.25", sign, d),
                _ => format!("{}1e{}3", sign, "0".repeat(n)),
            };
            attr(&mut text, &mut body, &t, MExpr::Num(t.clone()));
        }
        Name => {
            let unit = *s.pick(&["a", "é", "x-", "a1_", "中"]);
            let k = format!("n{}z", unit.repeat(n / unit.len()));
            match s.below(4) {
                0 => {
                    text.push_str(&format!("{} = 1\n", k));
                    body.push(MElem::Attr(k, num(1)));
                }
                1 => {
                    text.push_str(&format!("{} {{\n}}\n", k));
                    body.push(MElem::Block(MBlock { ty: k, labels: vec![], body: vec![] }));
                }
                2 => {
                    text.push_str(&format!("b {} \"{}\" {{\n}}\n", k, k));
                    body.push(MElem::Block(MBlock { ty: "b".into(), labels: vec![MLabel::Ident(k.clone()), MLabel::Lit(k)], body: vec![] }));
                }
                _ => {
                    text.push_str(&format!("it = {{\n{} = 1\n}}\n", k));
                    body.push(MElem::Attr("it".into(), MExpr::Object(vec![(MKey::Ident(k), num(1))])));
                }
            }
        }
        Depth => match s.below(4) {
            // parentheses are left out of the value model
            0 => {
                let mut e = num(7);
                for _ in 0..n {
                    e = MExpr::Tuple(vec![e]);
                }
                attr(&mut text, &mut body, &format!("{}7{}", "[".repeat(n), "]".repeat(n)), e);
            }
            1 => attr(&mut text, &mut body, &format!("{}7{}", "(".repeat(n), ")".repeat(n)), num(7)),
            2 => {
                let mut e = num(7);
                for _ in 0..n {
                    e = MExpr::Object(vec![(MKey::Ident("k".into()), e)]);
                }
                attr(&mut text, &mut body, &format!("{}7{}", "{\nk = ".repeat(n), "\n}".repeat(n)), e);
            }
            _ => {
                let mut b = vec![MElem::Attr("it".into(), num(7))];
                for _ in 0..n {
                    b = vec![MElem::Block(MBlock { ty: "b".into(), labels: vec![], body: b })];
                }
                text.push_str(&format!("{}it = 7\n{}", "b {\n".repeat(n), "}\n".repeat(n)));
                body.extend(b);
            }
        },
    }
    if s.bool() {
        text.push_str("last = \"x\"\n");
        body.push(MElem::Attr("last".into(), MExpr::Str("x".into())));
    }
    c.show = format!("{:?} of {}: {}", dim, n, clip(&text, 160));
    Big { dim, n, text, body }
}

// ------------------------------------------------------------------ what is asked of it

fn syntax(b: &Big) -> CaseResult {
    let got = parse_str(&b.text).map_err(|e| format!("rejected: {}", clip(&e.to_string(), 200)))?;
    same("syntax tree", &read_body(&got), &b.body)
}

fn owned(b: &Big) -> CaseResult {
    let text = b.text.clone();
    let copy = {
        let got = parse_str(&text).map_err(|e| format!("rejected: {}", clip(&e.to_string(), 200)))?;
        got.as_owned()
    };
    drop(text);
    same("owned copy", &read_body(&copy), &b.body)?;
    if let Some(v) = values::as_values(&b.body) {
        if let Ok(m) = value::from_str(&b.text, None) {
            same("owned copy of the value tree", &read_map(&m.as_owned()), &v)?;
        }
    }
    Ok(())
}

/// Edited once: the reference grammar decides.
fn spoilt(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let b = big(s, c, ALL, true);
    let mut t = b.text;
    if s.bool() {
        gen::edit(s, &mut t, None);
    } else {
        // near the end of what is large
        let back = s.below(t.len().min(60) + 1);
        let mut at = t.len() - back;
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        let tok = *s.pick(gen::TOKENS);
        t.insert_str(at, tok);
    }
    c.show = format!("{:?} of {}, edited: …{}", b.dim, b.n, &t[(0..=t.len().saturating_sub(160)).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0)..]);
    let want = refp::document(&t);
    let got = parse_str(&t).ok().map(|b| read_body(&b));
    c.label(if want.is_some() { "legal" } else { "illegal" });
    if refp::tab_indented_heredoc(&t) {
        c.discard = true;
        return Ok(());
    }
    same("edited document", &got, &want)
}

/// The value model has its own grammar; where both accept, both trees correspond.
fn value_tree(b: &Big) -> CaseResult {
    let want = refold::document(&b.text);
    let got = value::from_str(&b.text, None).ok().map(|m| read_map(&m));
    same("value tree", &got, &want)
}

fn both(b: &Big) -> CaseResult {
    let got = parse_str(&b.text).ok().map(|b| read_body(&b));
    let Some(body) = got else { return Err("the syntax model rejects it".into()) };
    if let Ok(m) = value::from_str(&b.text, None) {
        match values::as_values(&body) {
            Some(w) => same("value tree against syntax tree", &read_map(&m), &w)?,
            None => return Err("an object key has no counterpart".into()),
        }
    }
    Ok(())
}

fn merging(b: &Big) -> CaseResult {
    let Some(tree) = refold::document(&b.text) else { return Ok(()) };
    let want = refold::merge_map(&tree);
    for how in 0..3 {
        let got = match how {
            0 => value::from_str(&b.text, Some(MergeBehaviour::Error)),
            1 => value::from_str(&b.text, None).and_then(|m| m.merge()),
            _ => value::from_str(&b.text, None).and_then(|m| m.as_merged()),
        };
        match (&want, got) {
            (Ok(w), Ok(g)) => same("merged", &read_map(&g), w)?,
            (Err(_), Err(_)) => {}
            (Ok(_), Err(e)) => return Err(format!("not merged: {}", clip(&e.to_string(), 200))),
            (Err(x), Ok(_)) => return Err(format!("merged in spite of {:?}", x)),
        }
    }
    Ok(())
}

fn scalars(v: &OVal) -> usize {
    match v {
        OVal::List(l) => l.iter().map(scalars).sum(),
        OVal::Object(l) => l.iter().map(scalars_of).sum(),
        OVal::Block(b) => b.entries.iter().map(|(_, m)| scalars_of(m)).sum(),
        _ => 1,
    }
}

fn scalars_of(m: &OMap) -> usize {
    m.entries.iter().map(|(_, v)| scalars(v)).sum()
}

fn counting(b: &Big) -> CaseResult {
    let Some(tree) = refold::document(&b.text) else { return Ok(()) };
    let m = value::from_str(&b.text, None).map_err(|e| format!("rejected: {}", clip(&e.to_string(), 200)))?;
    same("number of scalars", &m.len_scalar(), &scalars_of(&tree))
}

fn in_pieces(s: &mut Src, b: &Big) -> CaseResult {
    struct Pieces<'a>(&'a [u8], usize, usize);
    impl<'a> Read for Pieces<'a> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            self.2 += 1;
            if self.2 % 5 == 3 {
                return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
            }
            let n = self.1.min(buf.len()).min(self.0.len());
            buf[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let step = *s.pick(&[1usize, 7, 64, 100, 1000, 1024, 4096, 8191, 65_536, 100_000, usize::MAX]);
    let bytes = b.text.as_bytes();
    same("parse_slice", &parse_slice(bytes).ok().map(|b| read_body(&b)).as_ref(), &Some(&b.body))?;
    same("parse_reader", &parse_reader(Pieces(bytes, step, 0)).ok().map(|b| read_body(&b)).as_ref(), &Some(&b.body))?;
    let want = value::from_str(&b.text, None).ok().map(|m| read_map(&m));
    same("value::from_slice", &value::from_slice(bytes, None).ok().map(|m| read_map(&m)), &want)?;
    same("value::from_reader", &value::from_reader(Pieces(bytes, step, 0), None).ok().map(|m| read_map(&m)), &want)
}

fn index(b: &Big) -> CaseResult {
    let got = parse_str(&b.text).map_err(|e| format!("rejected: {}", clip(&e.to_string(), 200)))?;
    let list: Vec<_> = got.iter().filter(|e| e.is_block()).map(|e| e.clone().unwrap_block()).collect();
    let mut want: BTreeMap<(String, Vec<String>), Vec<MBody>> = BTreeMap::new();
    for e in &b.body {
        if let MElem::Block(x) = e {
            want.entry((x.ty.clone(), x.labels.iter().map(|l| l.text().to_string()).collect())).or_default().push(x.body.clone());
        }
    }
    for how in 0..3 {
        let blocks: Blocks = match how {
            0 => Blocks::new(list.clone()),
            1 => {
                let mut x = Blocks::new(vec![]);
                list.iter().for_each(|b| x.append(b.clone()));
                x
            }
            _ => {
                let mut x: Blocks = list.iter().take(1).cloned().collect();
                x.extend(list.iter().skip(1).cloned());
                x
            }
        };
        same("len_blocks", &blocks.len_blocks(), &list.len())?;
        let mut flat: BTreeMap<(String, Vec<String>), Vec<MBody>> = BTreeMap::new();
        for (t, l, body) in blocks.clone().flat_into_iter() {
            flat.entry((t.to_string(), l.iter().map(|x| x.to_string()).collect::<Vec<_>>())).or_default().push(read_body(&body));
        }
        same("flat_into_iter", &flat, &want)?;
        // some of the paths: a lookup with many labels is work
        for ((t, l), bodies) in want.iter().step_by(1 + want.len() / 50) {
            let found = blocks.get(t, l).ok_or_else(|| format!("nothing under {:?} {:?}", t, l))?;
            same("get", &found.get_empty().iter().map(read_body).collect(), bodies)?;
        }
    }
    Ok(())
}

fn expression(b: &Big) -> CaseResult {
    for e in &b.body {
        if let MElem::Attr(k, e) = e {
            if k != "it" {
                continue;
            }
            let at = b.text.find("it = ").map_or(0, |i| i + 5);
            let end = b.text[at..].rfind("\nlast").map_or(b.text.len() - 1, |i| at + i);
            if let Ok(x) = Expression::parse(&b.text[at..end]) {
                sp::expression_means(x, e)?;
            }
        }
    }
    Ok(())
}

fn body(b: &Big) -> CaseResult {
    sp::document_means(&b.text, &b.body)
}

fn conversions(b: &Big) -> CaseResult {
    let got = parse_str(&b.text).map_err(|e| format!("rejected: {}", clip(&e.to_string(), 200)))?;
    for e in got.iter().filter(|e| e.is_attribute()) {
        if let Expression::Number(n) = &e.clone().unwrap_attribute().1 {
            numbers::conversions(n, &n.to_string())?;
        }
    }
    Ok(())
}

/// Collections built by hand, with any number of entries, and perhaps one of them twice.
fn collections(s: &mut Src, c: &mut Ctx) -> CaseResult {
    on_a_small_stack(|| built(s, c))
}

fn built(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let top = if s.chance(1, 8) { 20_000 } else { 1_100 };
    // beyond what 16 bits count, too
    let n = if s.chance(1, 80) { s.range(65_530, 66_000) } else { s.count(top) };
    let mut at: Vec<usize> = (0..n).collect();
    let mut twice = None;
    if n > 0 && s.chance(1, 2) {
        // the second time anywhere, but mostly near the end
        let to = if s.chance(1, 3) { s.below(n + 1) } else { n - s.below(n.min(3) + 1) };
        let from = if s.chance(1, 3) { n - 1 - s.below(n.min(3)) } else { s.below(n) };
        at.insert(to, from);
        twice = Some(from);
    }
    c.nontrivial_if(n > 32);
    let what = s.below(6);
    c.show = format!("{} of {} entries, {:?} twice", ["Block", "MapValues", "KeyValuePairs", "OneOrMany", "Blocks", "Tuple"][what], n, twice);
    let len = at.len();
    match what {
        0 => {
            let depth = s.range(1, 2);
            let map = |i: usize| OMap::un(vec![(OKey::Ident("i".into()), OVal::Int(i as i64))]);
            let e: Vec<(Vec<String>, OMap)> = at.iter().enumerate().map(|(j, i)| (vec![format!("l{}", i); depth], map(j))).collect();
            let un = value::Block::new_unmerged(e.iter().map(|(k, m)| (k.clone(), build_map(m))));
            same("new_unmerged", &read_vblock(&un), &OBlock { merged: false, entries: e.clone() })?;
            same("len", &un.len(), &len)?;
            same("len_scalar", &un.len_scalar(), &len)?;
            same("as_owned", &read_vblock(&un.as_owned()), &read_vblock(&un))?;
            let mut want = e;
            want.sort_by(|a, b| a.0.cmp(&b.0));
            want.iter_mut().for_each(|(_, m)| m.merged = true);
            let want = OBlock { merged: true, entries: want };
            for (how, got) in [("new_merged", value::Block::new_merged(un.clone())), ("merge", un.clone().merge()), ("as_merged", un.as_merged())] {
                match got {
                    Ok(g) => {
                        ensure!(twice.is_none(), "{}: equal labels twice, and merged", how);
                        same(how, &read_vblock(&g), &want)?;
                        same("unmerged again", &g.unmerge().len(), &len)?;
                    }
                    Err(e) => ensure!(twice.is_some(), "{}: refused: {}", how, clip(&e.to_string(), 200)),
                }
            }
        }
        1 => {
            let objects = s.bool();
            let val = |j: usize| {
                if objects {
                    OVal::Object(vec![OMap::un(vec![(OKey::Ident("i".into()), OVal::Int(j as i64))])])
                } else {
                    OVal::Int(j as i64)
                }
            };
            let quoted = s.bool();
            let e: Vec<(OKey, OVal)> = at
                .iter()
                .enumerate()
                .map(|(j, i)| {
                    let k = format!("k{}", i);
                    (if quoted && j % 2 == 0 { OKey::Str(k) } else { OKey::Ident(k) }, val(j))
                })
                .collect();
            let un = build_map(&OMap::un(e.clone()));
            same("len", &un.len(), &len)?;
            same("len_scalar", &un.len_scalar(), &len)?;
            same("as_owned", &read_map(&un.as_owned()), &OMap::un(e.clone()))?;
            for (how, got) in [("new_merged", value::MapValues::new_merged(un.clone())), ("merge", un.clone().merge()), ("as_merged", un.as_merged())] {
                match got {
                    Ok(g) => {
                        ensure!(objects || twice.is_none(), "{}: a key twice, and merged", how);
                        same("len of the merged", &g.len(), &n)?;
                        same("len_scalar of the merged", &g.len_scalar(), &len)?;
                        for i in 0..n {
                            let want: Vec<OVal> = at.iter().enumerate().take(if n < 1200 { len } else { 0 }).filter(|(_, x)| **x == i).map(|(j, _)| OVal::Int(j as i64)).collect();
                            let k = format!("k{}", i);
                            let found = g.get_single(k.as_str()).map(read_val).ok_or_else(|| format!("{}: {} is lost", how, k))?;
                            if want.is_empty() {
                                continue;
                            }
                            let got: Vec<OVal> = match found {
                                OVal::Object(v) => v.into_iter().flat_map(|m| m.entries.into_iter().map(|(_, v)| v)).collect(),
                                v => vec![v],
                            };
                            same(&k, &got, &want)?;
                        }
                    }
                    Err(e) => ensure!(!objects && twice.is_some(), "{}: refused: {}", how, clip(&e.to_string(), 200)),
                }
            }
        }
        2 => {
            let e: Vec<(usize, usize)> = at.iter().enumerate().map(|(j, i)| (*i, j)).collect();
            let mut un = KeyValuePairs::Unmerged(e.clone());
            let mut m = KeyValuePairs::Merged(e.iter().copied().collect());
            let more = s.below(3);
            un.extend((0..more).map(|x| (n + x, x)));
            m.extend((0..more).map(|x| (n + x, x)));
            same("len", &(un.len(), m.len()), &(len + more, n + more))?;
            let got: Vec<(usize, usize)> = un.iter().map(|(k, v)| (*k, *v)).collect();
            same("iter", &got[..len].to_vec(), &e)?;
            same("keys", &un.keys().count(), &(len + more))?;
            same("values", &un.values().copied().collect(), &got.iter().map(|x| x.1).collect::<Vec<_>>())?;
            let mut ks: Vec<usize> = m.iter().map(|(k, _)| *k).collect();
            ks.sort();
            same("keys of the merged", &ks, &(0..n + more).collect())?;
            for i in (0..n).rev().step_by(1 + n / 50).chain(twice) {
                let want: Vec<&usize> = e.iter().filter(|x| x.0 == i).map(|x| &x.1).collect();
                same("get", &un.get(&i).map(|g| g.unwrap_many()), &Some(want.clone()))?;
                same("get_single", &un.get_single(&i), &want.first().copied())?;
                same("get_single of the merged", &m.get_single(&i), &want.last().copied())?;
            }
        }
        4 => {
            let list: Vec<parser::Block> = at
                .iter()
                .enumerate()
                .map(|(j, i)| {
                    let it: parser::attribute::Attribute = ("j".into(), Expression::from(j as i64));
                    let label = parser::block::BlockLabel::Identifier(format!("l{}", i).into());
                    parser::Block::new(["b", "c"][i % 2].into(), vec![label], vec![it.into()])
                })
                .collect();
            let blocks: Blocks = match s.below(3) {
                0 => Blocks::new(list),
                1 => list.into_iter().collect(),
                _ => {
                    let mut x = Blocks::new(vec![]);
                    list.into_iter().for_each(|b| x.append(b));
                    x
                }
            };
            same("len_blocks", &blocks.len_blocks(), &len)?;
            let bodies = |i: usize| blocks.get(["b", "c"][i % 2], &[format!("l{}", i)]).map(|b| b.get_empty().iter().map(read_body).collect::<Vec<_>>());
            for i in (0..n).rev().step_by(1 + n / 50).chain(twice) {
                let want: Vec<MBody> = at.iter().enumerate().filter(|(_, x)| **x == i).map(|(j, _)| vec![MElem::Attr("j".into(), num(j))]).collect();
                same("bodies", &bodies(i), &Some(want))?;
            }
            same("flat_into_iter", &blocks.flat_into_iter().count(), &len)?;
        }
        5 => {
            let e = Expression::new_tuple(at.iter().map(|i| Expression::from(*i as i64)));
            let want = MExpr::Tuple(at.iter().map(|i| num(*i)).collect());
            same("tuple", &read_expr(&e), &want)?;
            same("owned tuple", &read_expr(&e.as_owned()), &want)?;
            sp::expression_means(e, &want)?;
        }
        _ => {
            let m = OneOrMany::Many(at.clone());
            same("len", &m.len(), &len)?;
            ensure!(m.is_many() && m.is_empty() == (len == 0), "kind or emptiness");
            same("iter", &m.iter().copied().collect(), &at)?;
            same("into_iter", &m.clone().into_iter().collect(), &at)?;
            let k = s.below(len + 2);
            same("nth", &m.iter().nth(k), &at.get(k))?;
        }
    }
    Ok(())
}

macro_rules! of {
    ($name:ident, $dims:expr, $light:expr, $($f:ident),*) => {
        pub fn $name(s: &mut Src, c: &mut Ctx) -> CaseResult {
            let b = big(s, c, $dims, $light);
            $($f(&b)?;)*
            Ok(())
        }
    };
}
of!(c01, ALL, false, syntax);
of!(c04, &[Blank, Comment], false, syntax);
of!(c05, &[Chars, Escapes], false, syntax, value_tree);
of!(c06, &[Lines, Indented, Deeper], false, syntax, value_tree);
of!(c07, &[Digits], true, syntax, conversions);
of!(c09, &[Name, Labels], false, syntax);
of!(c11, ALL, false, owned);
of!(c12, &[Blocks, Blocks, Blocks, Labels], true, index);
of!(c14, ALL, false, value_tree);
of!(c15, ALL, false, both);
of!(c16, &[Attrs, Blocks, Tuple, Object, Depth], true, merging);
of!(c17, &[Attrs, Blocks, Tuple, Object, Depth], true, counting);
of!(c19, &[Tuple, Object, Chars, Lines, Digits, Depth], true, syntax, expression);
of!(c20, &[Attrs, Blocks, Tuple, Object, Name, Depth], true, body);
of!(c30, ALL, false, syntax, value_tree, both, owned);
of!(c30_more, ALL, true, merging, counting, index, expression, body, conversions);

pub fn c02(s: &mut Src, c: &mut Ctx) -> CaseResult {
    spoilt(s, c)
}

pub fn c10(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let b = big(s, c, ALL, false);
    in_pieces(s, &b)
}

/// On a stack that what is nested may need, but not what is merely large.
fn on_a_small_stack<F: FnOnce() -> CaseResult + Send>(f: F) -> CaseResult {
    std::thread::scope(|sc| {
        let t = std::thread::Builder::new().stack_size(FLAT_STACK).spawn_scoped(sc, || {
            crate::alloc::limit(CASE_ALLOCS, CASE_BYTES);
            guard(f).unwrap_or_else(Err)
        });
        t.map_err(|e| format!("no thread: {}", e))?.join().unwrap_or_else(|_| Err("the thread panicked".into()))
    })
}

const FLAT_STACK: usize = 768 << 10;
const FLAT: &[Dim] = &[Attrs, Blocks, Tuple, Object, Chars, Escapes, Lines, Indented, Blank, Comment, Digits, Attrs, Tuple, Object];

/// Large, but flat: no more stack than a small one.
fn flat(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let dim = *s.pick(FLAT);
    // beyond what 16 bits count, too
    let huge = s.chance(1, 4) && !matches!(dim, Attrs | Blocks | Object | Digits);
    let n = if huge { s.range(65_500, 67_000) } else { s.range(5_000, 14_000).min(most(dim, true)) };
    let b = big_of(s, c, dim, n);
    on_a_small_stack(|| {
        syntax(&b)?;
        if huge && dim == Tuple {
            return counting(&b);
        }
        owned(&b)?;
        both(&b)?;
        merging(&b)?;
        counting(&b)?;
        if dim == Attrs || dim == Tuple || dim == Object {
            body(&b)?;
            expression(&b)?;
        }
        let bytes = b.text.as_bytes();
        same("parse_reader", &parse_reader(bytes).ok().map(|b| read_body(&b)).as_ref(), &Some(&b.body))?;
        if dim == Blocks {
            index(&b)?;
        }
        Ok(())
    })
}

const FLAT_RULE: &str = "a document in which one part occurs, or is long, thousands of times, without being nested, read, copied, merged, counted and deserialised on a stack of 768 KiB; every case is non-trivial";

fn c30_pieces(s: &mut Src, c: &mut Ctx) -> CaseResult {
    c10(s, c)
}

const RULE: &str = "a document in which one part occurs, or is long or deep, any number of times (every order of magnitude, round numbers, numbers of the program's own, give or take one); non-trivial: more than 32 times";

const COLLECTIONS: &str = "a collection built by hand with any number of entries, half of the time with one of them twice; non-trivial: more than 32 entries";

pub fn share(id: &str) -> Vec<Check> {
    let (quick, f): (u64, CaseFn) = match id {
        "C01" => (2_000, c01),
        "C02" => (2_000, c02),
        "C04" => (2_000, c04),
        "C05" => (2_000, c05),
        "C06" => (2_000, c06),
        "C07" => (2_000, c07),
        "C09" => (2_000, c09),
        "C10" => (2_000, c10),
        "C11" => (2_000, c11),
        "C12" => (2_000, c12),
        "C14" => (2_000, c14),
        "C15" => (2_000, c15),
        "C16" => (2_000, c16),
        "C17" => (2_000, c17),
        "C19" => (2_000, c19),
        "C20" => (2_000, c20),
        "C13" => return vec![check("collections", 2_000, 80_000, COLLECTIONS, collections)],
        _ => return vec![],
    };
    let mut v = vec![check("size", quick, 40 * quick, RULE, f)];
    if id == "C16" || id == "C17" {
        v.push(check("collections", quick, 40 * quick, COLLECTIONS, collections));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C30",
        vec![
            check("trees", 4_000, 160_000, RULE, c30),
            check("readings", 4_000, 160_000, RULE, c30_more),
            check("pieces", 2_000, 80_000, RULE, c30_pieces),
            check("collections", 3_000, 120_000, COLLECTIONS, collections),
            check("flat", 56, 3_000, FLAT_RULE, flat),
            check("edited", 3_000, 120_000, RULE, spoilt),
        ],
    )]
}
