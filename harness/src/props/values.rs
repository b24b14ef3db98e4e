//! C14 C15 C16 C17 C18: value trees.
use super::syntax::{any_text, disp, judged};
use super::*;
use crate::ensure;
use crate::gen::{self, *};
use crate::model::*;
use crate::refold::{self, Clash};
use crate::refp;
use ferrous_chloride::value::{self, MapValues, Value};
use ferrous_chloride::{parse_str, Error, KeyValuePairs, MergeBehaviour, Mergeable, OneOrMany, ScalarLength};
use std::collections::HashMap;

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C14",
            vec![
                check("document", 60_000, 1_500_000, "value tree -> random legal layout -> value::from_str without merging -> same tree; non-trivial: at least 3 nodes", c14_document),
                check("mutated", 80_000, 2_500_000, "legal value documents with 0 to 4 edits against the reference parser (acceptance and tree); non-trivial: edited", c14_mutated),
                check("foreign", 50_000, 1_500_000, "syntax-tree documents, token soup and random text against the reference parser; non-trivial: at least 3 bytes", c14_foreign),
            ],
        ),
        prop(
            "C15",
            vec![
                check("shared", 60_000, 1_500_000, "documents legal in both models, read through both and compared; non-trivial: at least 3 nodes", c15_shared),
                check("mutated", 60_000, 1_500_000, "the same after 1 to 3 edits, compared where both accept; non-trivial: both accept", c15_mutated),
            ],
        ),
        prop(
            "C16",
            vec![
                check("parsed", 60_000, 1_500_000, "documents with many repeated names, merged through every entry point, against the reference merge; non-trivial: some name repeated", c16_parsed),
                check("tidy", 40_000, 1_000_000, "documents whose repetitions are all mergeable; non-trivial: some name repeated", c16_tidy),
                check("built", 40_000, 1_000_000, "trees assembled in memory (blocks of several entries, lists of objects), merged value by value; non-trivial: some name repeated", c16_built),
            ],
        ),
        prop(
            "C17",
            vec![
                check("flags", 60_000, 1_500_000, "trees whose collections are merged or not at random: flags and scalar counts of every part; non-trivial: at least 3 nodes", c17_flags),
                check("convert", 50_000, 1_200_000, "merge, as_merged, unmerge, as_unmerged against each other and the reference; non-trivial: at least 2 entries", c17_convert),
            ],
        ),
        prop(
            "C18",
            vec![
                check("accessors", 60_000, 1_500_000, "a random value (as a whole and each part of it) against all tests, accessors and unwraps; all kinds count", c18_accessors),
                check("mutate", 40_000, 1_000_000, "writes through mutable accessors are seen and nothing else changes; non-trivial: an aggregate or string", c18_mutate),
            ],
        ),
    ]
}

// ------------------------------------------------------------------ generation

fn okey(s: &mut Src) -> OKey {
    match s.weighted(&[50, 20, 30]) {
        0 => OKey::Ident(gen::small_name(s)),
        1 => OKey::Ident(gen::ident(s)),
        _ => {
            if s.bool() {
                OKey::Str(gen::small_name(s))
            } else {
                OKey::Str(gen::text(s, 4))
            }
        }
    }
}

pub fn scalar(s: &mut Src) -> OVal {
    match s.weighted(&[10, 20, 15, 10, 25]) {
        0 => OVal::Null,
        1 => match s.below(3) {
            0 => OVal::Int(s.below(10) as i64),
            1 => OVal::Int(*s.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, -1, 0, 1 << 53, (1 << 53) + 1])),
            _ => OVal::Int(s.u64() as i64 >> s.below(64)),
        },
        2 => {
            let f = match s.below(4) {
                0 => s.below(1000) as f64 / 8.0,
                1 => *s.pick(&[0.0, -0.0, 1e300, 1e-300, 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, 9223372036854775808.0, -9223372036854777856.0, 1e25, 0.1]),
                _ => f64::from_bits(s.u64()),
            };
            OVal::Float(if f.is_nan() { 1.5f64 } else { f }.to_bits())
        }
        3 => OVal::Bool(s.bool()),
        _ => OVal::Str(gen::text(s, 8)),
    }
}

fn val(s: &mut Src, depth: usize, tidy: bool) -> OVal {
    let w: &[usize] = if depth == 0 { &[1] } else { &[50, 20, 30] };
    match s.weighted(w) {
        0 => scalar(s),
        1 => {
            let n = s.len(4);
            OVal::List((0..n).map(|_| val(s, depth - 1, tidy)).collect())
        }
        _ => OVal::Object(vec![gen_map(s, depth - 1, tidy)]),
    }
}

fn labels(s: &mut Src) -> Vec<String> {
    let n = s.range(1, 3);
    (0..n).map(|_| if s.chance(3, 4) { gen::small_name(s) } else { gen::text(s, 4) }).collect()
}

/// An unmerged document of the value grammar. `tidy`: repeated names are only ever mergeable.
pub fn gen_map(s: &mut Src, depth: usize, tidy: bool) -> OMap {
    let n = s.len(3 + 2 * s.size);
    let mut e: Vec<(OKey, OVal)> = vec![];
    for _ in 0..n {
        let (mut k, v) = if depth > 0 && s.chance(1, 3) {
            let k = if s.bool() { gen::small_name(s) } else { gen::ident(s) };
            (OKey::Ident(k), OVal::Block(OBlock { merged: false, entries: vec![(labels(s), gen_map(s, depth - 1, tidy))] }))
        } else {
            (okey(s), val(s, depth, tidy))
        };
        if tidy {
            for round in 0.. {
                let clash = e.iter().any(|(k2, v2)| {
                    k2.text() == k.text()
                        && match (v2, &v) {
                            (OVal::Object(_), OVal::Object(_)) => false,
                            (OVal::Block(a), OVal::Block(b)) => a.entries[0].0 == b.entries[0].0,
                            _ => true,
                        }
                });
                if !clash {
                    break;
                }
                k = match k {
                    OKey::Ident(t) => OKey::Ident(format!("{}{}", t, round)),
                    OKey::Str(t) => OKey::Str(format!("{}{}", t, round)),
                };
            }
        }
        e.push((k, v));
    }
    OMap::un(e)
}

fn num(s: &mut Src, v: &OVal) -> String {
    match v {
        OVal::Int(i) => match s.below(6) {
            0 if *i >= 0 => format!("+{}", i),
            1 if *i >= 0 => format!("00{}", i),
            2 if *i == 0 => "-0".into(),
            _ => i.to_string(),
        },
        OVal::Float(b) => {
            let f = f64::from_bits(*b);
            if f.is_infinite() {
                return if f > 0.0 { "1e999" } else { "-1e999" }.into();
            }
            let whole = f.fract() == 0.0 && f.abs() >= 9.3e18 && f.abs() < 1e60;
            match s.below(4) {
                0 if whole => format!("{}", f),
                0 | 1 => format!("{:e}", f),
                2 => format!("{:E}", f),
                _ => format!("{:?}", f),
            }
        }
        _ => unreachable!(),
    }
}

fn lay_val(l: &mut Lay, s: &mut Src, v: &OVal) -> bool {
    match v {
        OVal::Null => l.p("null"),
        OVal::Int(_) | OVal::Float(_) => {
            let t = num(s, v);
            l.p(&t);
        }
        OVal::Bool(b) => l.p(if *b { "true" } else { "false" }),
        OVal::Str(t) => return l.expr_noparen_lead(s, &MExpr::Str(t.clone())),
        OVal::List(v) => {
            l.p("[");
            l.ws(s);
            for (i, x) in v.iter().enumerate() {
                if lay_val(l, s, x) {
                    l.eol(s);
                }
                l.ws(s);
                if i + 1 < v.len() {
                    l.p(",");
                    l.ws(s);
                } else if s.chance(1, 4) {
                    l.p(",");
                    l.ws(s);
                }
            }
            l.p("]");
        }
        OVal::Object(m) => {
            assert!(m.len() == 1);
            lay_braces(l, s, &m[0]);
        }
        OVal::Block(_) => unreachable!(),
    }
    false
}

fn lay_braces(l: &mut Lay, s: &mut Src, m: &OMap) {
    l.p("{");
    l.ws(s);
    lay_entries(l, s, m, false);
    l.ws(s);
    l.p("}");
}

fn lay_key(l: &mut Lay, s: &mut Src, k: &OKey) {
    match k {
        OKey::Ident(t) => l.p(t),
        OKey::Str(t) => l.quoted(s, t, false),
    }
}

fn lay_entries(l: &mut Lay, s: &mut Src, m: &OMap, top: bool) {
    for (i, (k, v)) in m.entries.iter().enumerate() {
        l.il(s);
        lay_key(l, s, k);
        let h = match v {
            OVal::Block(b) => {
                for t in &b.entries[0].0 {
                    l.sp(s);
                    l.quoted(s, t, false);
                }
                l.sp(s);
                if s.chance(1, 4) {
                    l.ws(s);
                }
                lay_braces(l, s, &b.entries[0].1);
                false
            }
            OVal::Object(o) if matches!(k, OKey::Ident(_)) && s.bool() => {
                l.sp(s);
                if s.chance(1, 4) {
                    l.ws(s);
                }
                lay_braces(l, s, &o[0]);
                false
            }
            _ => {
                l.sp(s);
                l.p("=");
                l.sp(s);
                if matches!(v, OVal::Object(_)) && s.chance(1, 4) {
                    l.ws(s);
                }
                lay_val(l, s, v)
            }
        };
        if h {
            l.nl(s);
            continue;
        }
        l.il(s);
        let last = i + 1 == m.entries.len();
        match s.weighted(if last && top { &[60, 20, 20] } else { &[60, 20] }) {
            0 => l.nl(s),
            1 => {
                l.ws(s);
                l.p(",");
                l.ws(s);
            }
            _ => {}
        }
    }
}

/// a random legal layout
pub fn render(s: &mut Src, m: &OMap) -> String {
    let mut l = Lay::new(s);
    l.ws(s);
    lay_entries(&mut l, s, m, true);
    l.out
}

fn construct_key<'a>(s: &mut Src, k: &'a OKey) -> Key<'a> {
    match k {
        OKey::Ident(t) => match s.below(4) {
            0 => Key::from(t.as_str()),
            1 => Key::from(t.clone()),
            2 => Key::new_identifier(t),
            _ => Key::new_identifier_owned(t.clone()),
        },
        OKey::Str(t) => {
            if s.bool() {
                Key::new_string(t)
            } else {
                Key::new_string_owned(t.clone())
            }
        }
    }
}

fn construct_pairs<'a>(s: &mut Src, m: &'a OMap) -> Vec<(Key<'a>, Value<'a>)> {
    m.entries.iter().map(|(k, v)| (construct_key(s, k), construct_val(s, v))).collect()
}

fn construct_val<'a>(s: &mut Src, v: &'a OVal) -> Value<'a> {
    let by_ref = s.bool();
    match v {
        OVal::Null => Value::Null,
        OVal::Int(i) => {
            if by_ref {
                Value::from(i)
            } else {
                Value::from(*i)
            }
        }
        OVal::Float(b) => {
            let f = f64::from_bits(*b);
            if by_ref {
                Value::from(&f)
            } else {
                Value::from(f)
            }
        }
        OVal::Bool(b) => {
            if by_ref {
                Value::from(b)
            } else {
                Value::from(*b)
            }
        }
        OVal::Str(t) => match s.below(3) {
            0 => Value::from(t.as_str()),
            1 => Value::from(t.clone()),
            _ => Value::from(t),
        },
        OVal::List(l) => {
            let l: Vec<Value> = l.iter().map(|x| construct_val(s, x)).collect();
            match s.below(3) {
                0 => Value::new_list(l),
                1 => l.into_iter().collect(),
                _ => {
                    if l.is_empty() && by_ref {
                        Value::from(None::<Vec<Value>>)
                    } else {
                        Value::from(Some(l))
                    }
                }
            }
        }
        OVal::Object(o) => match o.as_slice() {
            [m] if s.bool() => {
                if by_ref {
                    Value::new_single_map(construct_pairs(s, m))
                } else {
                    Value::from(construct_map(s, m))
                }
            }
            _ => {
                if by_ref {
                    let p: Vec<_> = o.iter().map(|m| construct_pairs(s, m)).collect();
                    Value::new_map(p)
                } else {
                    let p: Vec<_> = o.iter().map(|m| construct_map(s, m)).collect();
                    Value::from(p)
                }
            }
        },
        OVal::Block(b) => match b.entries.as_slice() {
            [(k, m)] if s.bool() => Value::new_block(k.as_slice(), construct_pairs(s, m)),
            _ => {
                let e: Vec<(Vec<String>, MapValues)> = b.entries.iter().map(|(k, m)| (k.clone(), construct_map(s, m))).collect();
                if by_ref {
                    Value::from(value::Block::new_unmerged(e))
                } else {
                    Value::from(e.into_iter().collect::<value::Block>())
                }
            }
        },
    }
}

/// through the public constructors and conversions
pub fn construct_map<'a>(s: &mut Src, m: &'a OMap) -> MapValues<'a> {
    let p = construct_pairs(s, m);
    if s.bool() {
        MapValues::new_unmerged(p)
    } else {
        p.into_iter().collect()
    }
}

fn alter_val(s: &mut Src, v: &mut OVal) {
    match v {
        OVal::Int(i) => *i = i.wrapping_add(1),
        OVal::Bool(b) => *b = !*b,
        OVal::Str(t) => t.push('x'),
        OVal::Null => *v = OVal::Bool(false),
        OVal::Float(_) => *v = OVal::Null,
        OVal::List(l) => {
            if l.is_empty() || s.bool() {
                l.push(OVal::Null)
            } else {
                let i = s.below(l.len());
                alter_val(s, &mut l[i])
            }
        }
        OVal::Object(o) => {
            if o.is_empty() || s.chance(1, 4) {
                o.push(OMap::un(vec![]))
            } else {
                let i = s.below(o.len());
                alter(s, &mut o[i])
            }
        }
        OVal::Block(b) => {
            if b.entries.is_empty() {
                b.entries.push((vec!["new".into()], OMap::un(vec![])));
                return;
            }
            let i = s.below(b.entries.len());
            match s.below(3) {
                0 => b.entries[i].0.push("new".into()),
                _ => alter(s, &mut b.entries[i].1),
            }
        }
    }
}

/// change one thing
pub fn alter(s: &mut Src, m: &mut OMap) {
    if m.entries.is_empty() || s.chance(1, 6) {
        m.entries.push((OKey::Ident("added".into()), OVal::Null));
        return;
    }
    let i = s.below(m.entries.len());
    match s.below(5) {
        0 => {
            m.entries.remove(i);
        }
        1 => match &mut m.entries[i].0 {
            OKey::Ident(t) | OKey::Str(t) => t.push('x'),
        },
        _ => alter_val(s, &mut m.entries[i].1),
    }
}

fn repeats(m: &OMap) -> bool {
    fn v(x: &OVal) -> bool {
        match x {
            OVal::List(l) => l.iter().any(v),
            OVal::Object(l) => l.iter().any(repeats),
            OVal::Block(b) => b.entries.iter().any(|(_, m)| repeats(m)),
            _ => false,
        }
    }
    m.entries.iter().enumerate().any(|(i, (k, x))| v(x) || m.entries[..i].iter().any(|(j, _)| j.text() == k.text()))
}

// ------------------------------------------------------------------ C14

fn c14_document(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(1, 3 + s.size);
    let m = gen_map(s, d, false);
    let t = render(s, &m);
    c.show = t.clone();
    c.nontrivial_if(omap_nodes(&m) >= 3);
    c.label_if(repeats(&m), "repeated names");
    match value::from_str(&t, None) {
        Ok(v) => {
            same("value::from_str", &read_map(&v), &m)?;
            ensure!(v.is_unmerged(), "not flagged unmerged");
            Ok(())
        }
        Err(e) => Err(format!("legal document rejected: {}", disp(&e))),
    }
}

fn against_reference(c: &mut Ctx, t: &str) -> CaseResult {
    if !judged(t) {
        c.discard = true;
        return Ok(());
    }
    let want = refold::document(t);
    c.label_if(want.is_some(), "accepted");
    match (value::from_str(t, None), want) {
        (Ok(g), Some(w)) => {
            if refp::tab_indented_heredoc(t) {
                return Ok(());
            }
            same("tree", &read_map(&g), &w)
        }
        (Err(_), None) => Ok(()),
        (Ok(g), None) => Err(format!("accepted a text the grammar does not derive, as {}", clip(&format!("{:?}", read_map(&g)), 400))),
        (Err(e), Some(w)) => Err(format!("rejected ({}) a text of the grammar: {}", disp(&e), clip(&format!("{:?}", w), 400))),
    }
}

fn c14_mutated(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(1, 3 + s.size);
    let m = gen_map(s, d, false);
    let mut t = render(s, &m);
    let n = s.below(5);
    for _ in 0..n {
        gen::edit(s, &mut t, None);
    }
    c.show = t.clone();
    c.nontrivial_if(n > 0);
    against_reference(c, &t)
}

fn c14_foreign(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = any_text(s);
    c.show = t.clone();
    c.nontrivial_if(t.len() >= 3);
    against_reference(c, &t)
}

// ------------------------------------------------------------------ C15

/// what the value tree of this body should be; None where a key has no counterpart
pub fn as_values(b: &MBody) -> Option<OMap> {
    let mut v = vec![];
    for e in b {
        match e {
            MElem::Attr(k, x) => v.push((OKey::Ident(k.clone()), expr_value(x)?)),
            MElem::Block(b) => {
                let inner = as_values(&b.body)?;
                let x = if b.labels.is_empty() {
                    OVal::Object(vec![inner])
                } else {
                    OVal::Block(OBlock { merged: false, entries: vec![(b.labels.iter().map(|l| l.text().to_string()).collect(), inner)] })
                };
                v.push((OKey::Ident(b.ty.clone()), x));
            }
        }
    }
    Some(OMap::un(v))
}

fn expr_value(e: &MExpr) -> Option<OVal> {
    Some(match e {
        MExpr::Null => OVal::Null,
        MExpr::Num(t) => refold::num_value(t),
        MExpr::Bool(b) => OVal::Bool(*b),
        MExpr::Str(t) => OVal::Str(t.clone()),
        MExpr::Tuple(v) => OVal::List(v.iter().map(expr_value).collect::<Option<_>>()?),
        MExpr::Object(v) => OVal::Object(vec![OMap::un(
            v.iter()
                .map(|(k, x)| {
                    let k = match k {
                        MKey::Ident(t) => OKey::Ident(t.clone()),
                        MKey::Expr(t) => match refp::quoted(t, 0, false) {
                            Ok((x, n)) if n == t.len() => OKey::Str(x),
                            _ => return None,
                        },
                    };
                    Some((k, expr_value(x)?))
                })
                .collect::<Option<_>>()?,
        )]),
    })
}

fn shared_expr(s: &mut Src, depth: usize) -> MExpr {
    match s.weighted(if depth == 0 { &[10, 20, 10, 25] } else { &[10, 20, 10, 25, 15, 20] }) {
        0 => MExpr::Null,
        1 => MExpr::Num(gen::num_text(s)),
        2 => MExpr::Bool(s.bool()),
        3 => MExpr::Str(gen::text(s, 8)),
        4 => {
            let n = s.len(4);
            MExpr::Tuple((0..n).map(|_| shared_expr(s, depth - 1)).collect())
        }
        _ => {
            let n = s.len(4);
            MExpr::Object(
                (0..n)
                    .map(|_| {
                        let k = if s.chance(2, 3) {
                            MKey::Ident(gen::ident(s))
                        } else {
                            let mut l = Lay::plain();
                            let t = gen::text(s, 4);
                            l.quoted(s, &t, false);
                            MKey::Expr(l.out)
                        };
                        (k, shared_expr(s, depth - 1))
                    })
                    .collect(),
            )
        }
    }
}

fn shared_body(s: &mut Src, depth: usize) -> MBody {
    let n = s.len(2 + 2 * s.size);
    (0..n)
        .map(|_| {
            if depth > 0 && s.chance(2, 5) {
                let nl = s.len(3);
                let labels = (0..nl).map(|_| MLabel::Lit(gen::text(s, 4))).collect();
                MElem::Block(MBlock { ty: gen::ident(s), labels, body: shared_body(s, depth - 1) })
            } else {
                MElem::Attr(gen::ident(s), shared_expr(s, depth))
            }
        })
        .collect()
}

fn lay_shared_expr(l: &mut Lay, s: &mut Src, e: &MExpr) -> bool {
    match e {
        MExpr::Tuple(v) => {
            l.p("[");
            l.ws(s);
            for (i, x) in v.iter().enumerate() {
                if lay_shared_expr(l, s, x) {
                    l.eol(s);
                }
                l.ws(s);
                if i + 1 < v.len() || s.chance(1, 4) {
                    l.p(",");
                    l.ws(s);
                }
            }
            l.p("]");
        }
        MExpr::Object(v) => {
            l.p("{");
            l.ws(s);
            for (k, x) in v {
                match k {
                    MKey::Ident(k) | MKey::Expr(k) => l.p(k),
                }
                l.sp(s);
                l.p("=");
                l.sp(s);
                if lay_shared_expr(l, s, x) {
                    l.nl(s);
                } else {
                    l.il(s);
                    if s.bool() {
                        l.p(",");
                        l.ws(s);
                    } else {
                        l.nl(s);
                    }
                }
            }
            l.p("}");
        }
        _ => return l.expr_noparen_lead(s, e),
    }
    false
}

fn lay_shared(l: &mut Lay, s: &mut Src, b: &MBody) {
    for e in b {
        l.il(s);
        let h = match e {
            MElem::Attr(k, x) => {
                l.p(k);
                l.sp(s);
                l.p("=");
                l.sp(s);
                lay_shared_expr(l, s, x)
            }
            MElem::Block(b) => {
                l.head(s, b);
                if b.body.is_empty() && s.bool() {
                    l.sp(s);
                } else {
                    l.il(s);
                    l.nl(s);
                    lay_shared(l, s, &b.body);
                    l.il(s);
                }
                l.p("}");
                false
            }
        };
        if !h {
            l.il(s);
        }
        l.nl(s);
    }
}

fn both(c: &mut Ctx, t: &str) -> Result<bool, String> {
    let (a, b) = (parse_str(t), value::from_str(t, None));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let body = read_body(&a);
            match as_values(&body) {
                Some(w) => same("value tree against syntax tree", &read_map(&b), &w)?,
                None => return Err(format!("an object key of {:?} has no counterpart in {:?}", clip(&format!("{:?}", body), 300), clip(&format!("{:?}", read_map(&b)), 300))),
            }
            c.label("both accept");
            Ok(true)
        }
        (Ok(_), Err(_)) => {
            c.label("syntax tree only");
            Ok(false)
        }
        (Err(_), Ok(_)) => {
            c.label("value tree only");
            Ok(false)
        }
        _ => {
            c.label("neither");
            Ok(false)
        }
    }
}

fn c15_shared(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(1, 3 + s.size);
    let b = shared_body(s, d);
    let mut l = Lay::new(s);
    l.ws(s);
    lay_shared(&mut l, s, &b);
    c.show = l.out.clone();
    c.nontrivial_if(body_nodes(&b) >= 3);
    if !both(c, &l.out)? {
        return Err("a document legal in both models was rejected by one".into());
    }
    Ok(())
}

fn c15_mutated(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(1, 3 + s.size);
    let b = shared_body(s, d);
    let mut l = Lay::new(s);
    l.ws(s);
    lay_shared(&mut l, s, &b);
    let mut t = l.out;
    for _ in 0..s.range(1, 3) {
        gen::edit(s, &mut t, None);
    }
    c.show = t.clone();
    let r = both(c, &t)?;
    c.nontrivial_if(r);
    Ok(())
}

// ------------------------------------------------------------------ C16

fn is_merge_error(e: &Error) -> bool {
    matches!(e, Error::IllegalMultipleEntries { .. } | Error::ErrorMergingKeys { .. })
}

fn judge(what: &str, got: Result<OMap, Error>, want: &Result<OMap, Clash>) -> CaseResult {
    match (got, want) {
        (Ok(g), Ok(w)) => same(what, &g, w),
        (Err(e), Err(_)) => {
            ensure!(is_merge_error(&e), "{}: a merge conflict was reported as {}", what, disp(&e));
            Ok(())
        }
        (Ok(g), Err(w)) => Err(format!("{}: merged although {:?}: {}", what, w, clip(&format!("{:?}", g), 400))),
        (Err(e), Ok(_)) => Err(format!("{}: refused a mergeable document: {}", what, disp(&e))),
    }
}

fn merge_everywhere(c: &mut Ctx, t: &str, m: &OMap) -> CaseResult {
    let want = refold::merge_map(m);
    c.label_if(want.is_ok(), "mergeable");
    if let Err(e) = &want {
        c.label(match e {
            Clash::Multiple(..) => "repeated scalar or list",
            Clash::Kinds(..) => "conflicting kinds",
            Clash::Block(_) => "repeated labels",
        });
    }
    let rd = |v: MapValues| read_map(&v);
    judge("from_str(Error)", value::from_str(t, Some(MergeBehaviour::Error)).map(rd), &want)?;
    judge("from_str(default)", value::from_str(t, Some(MergeBehaviour::default())).map(rd), &want)?;
    judge("from_slice", value::from_slice(t.as_bytes(), Some(MergeBehaviour::Error)).map(rd), &want)?;
    judge("from_reader", value::from_reader(t.as_bytes(), Some(MergeBehaviour::Error)).map(|v| read_map(&v)), &want)?;
    let un = value::from_str(t, None).map_err(|e| format!("legal document rejected: {}", disp(&e)))?;
    judge("as_merged", un.as_merged().map(rd), &want)?;
    judge("new_merged", MapValues::new_merged(un.clone()).map(rd), &want)?;
    let merged = un.merge();
    if let Ok(g) = &merged {
        ensure!(g.is_merged(), "result not flagged merged");
        judge("merging twice", g.clone().merge().map(rd), &want)?;
        judge("as_merged of the merged", g.as_merged().map(rd), &want)?;
        // each part again
        for (k, v) in g {
            let again = v.clone().merge().map_err(|e| format!("{:?} does not merge again: {}", k, disp(&e)))?;
            same("a merged value merged again", &read_val(&again), &read_val(v))?;
        }
    }
    judge("merge", merged.map(rd), &want)
}

fn c16_parsed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(1, 2 + s.size);
    let m = gen_map(s, d, false);
    let t = render(s, &m);
    c.show = t.clone();
    c.nontrivial_if(repeats(&m));
    merge_everywhere(c, &t, &m)
}

fn c16_tidy(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(1, 2 + s.size);
    let mut m = gen_map(s, d, true);
    // at most one spoiler
    if s.chance(1, 4) {
        spoil(s, &mut m);
    }
    let t = render(s, &m);
    c.show = t.clone();
    c.nontrivial_if(repeats(&m));
    merge_everywhere(c, &t, &m)
}

/// repeat one entry somewhere
fn spoil(s: &mut Src, m: &mut OMap) {
    if m.entries.is_empty() {
        return;
    }
    let i = s.below(m.entries.len());
    if s.bool() {
        match &mut m.entries[i].1 {
            OVal::Object(o) if !o.is_empty() => return spoil(s, &mut o[0]),
            OVal::Block(b) if !b.entries.is_empty() => return spoil(s, &mut b.entries[0].1),
            OVal::List(l) => {
                if let Some(OVal::Object(o)) = l.last_mut() {
                    return spoil(s, &mut o[0]);
                }
            }
            _ => {}
        }
    }
    let (k, v) = m.entries[i].clone();
    let k = match (k, s.bool()) {
        (OKey::Str(t), _) => OKey::Str(t),
        (OKey::Ident(t), true) if !matches!(v, OVal::Block(_)) => OKey::Str(t),
        (k, _) => k,
    };
    let v = match s.below(3) {
        0 => v,
        1 if matches!(k, OKey::Ident(_)) => OVal::Block(OBlock { merged: false, entries: vec![(labels(s), OMap::un(vec![]))] }),
        _ => OVal::Object(vec![OMap::un(vec![])]),
    };
    let j = s.below(m.entries.len() + 1);
    m.entries.insert(j, (k, v));
}

/// trees no text denotes: several objects per key, several entries per block
fn rich_map(s: &mut Src, depth: usize) -> OMap {
    let n = s.len(4);
    let e = (0..n)
        .map(|_| {
            let k = okey(s);
            let v = match s.weighted(if depth == 0 { &[1] } else { &[40, 20, 30, 30] }) {
                0 => scalar(s),
                1 => {
                    let n = s.len(3);
                    OVal::List((0..n).map(|_| if s.bool() { scalar(s) } else { OVal::Object(vec![rich_map(s, depth - 1)]) }).collect())
                }
                2 => {
                    let n = s.len(3);
                    OVal::Object((0..n).map(|_| rich_map(s, depth - 1)).collect())
                }
                _ => {
                    let n = s.len(3);
                    OVal::Block(OBlock { merged: false, entries: (0..n).map(|_| (labels(s), rich_map(s, depth - 1))).collect() })
                }
            };
            (k, v)
        })
        .collect();
    OMap::un(e)
}

fn c16_built(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(1, 2 + s.size);
    let m = rich_map(s, d);
    c.show = format!("{:?}", m);
    c.nontrivial_if(repeats(&m));
    let want = refold::merge_map(&m);
    c.label_if(want.is_ok(), "mergeable");
    let built = construct_map(s, &m);
    judge("merge", built.clone().merge().map(|v| read_map(&v)), &want)?;
    judge("as_merged", built.as_merged().map(|v| read_map(&v)), &want)?;
    judge("new_merged", MapValues::new_merged(built.iter().map(|(k, v)| (k.clone(), v.clone()))).map(|v| read_map(&v)), &want)?;
    same("as_merged changed its receiver", &read_map(&built), &m)?;
    for (k, v) in &m.entries {
        let lib = build_val(v);
        match (lib.clone().merge(), refold::merge_val(v)) {
            (Ok(g), Ok(w)) => same("Value::merge", &read_val(&g), &w)?,
            (Err(e), Err(_)) => ensure!(is_merge_error(&e), "{:?}: conflict reported as {}", k, disp(&e)),
            (Ok(g), Err(w)) => return Err(format!("Value::merge succeeded although {:?}: {:?}", w, read_val(&g))),
            (Err(e), Ok(_)) => return Err(format!("Value::merge refused {:?}: {}", v, disp(&e))),
        }
        if let OVal::Block(b) = v {
            let lib = build_vblock(b);
            let w = refold::merge_block(b);
            for (what, got) in [
                ("Block::merge", lib.clone().merge()),
                ("Block::as_merged", lib.as_merged()),
                ("Block::new_merged", value::Block::new_merged(lib.clone())),
            ] {
                match (got, &w) {
                    (Ok(g), Ok(w)) => same(what, &read_vblock(&g), w)?,
                    (Err(e), Err(_)) => ensure!(is_merge_error(&e), "{}: conflict reported as {}", what, disp(&e)),
                    (Ok(g), Err(w)) => return Err(format!("{} succeeded although {:?}: {:?}", what, w, read_vblock(&g))),
                    (Err(e), Ok(_)) => return Err(format!("{} refused {:?}: {}", what, b, disp(&e))),
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C17

fn mixed_map(s: &mut Src, depth: usize, bias: usize) -> OMap {
    // bias 0: all unmerged, 1: all merged, 2: mixed
    let merged = match bias {
        0 => false,
        1 => true,
        _ => s.bool(),
    };
    let n = s.len(4);
    let mut e: Vec<(OKey, OVal)> = vec![];
    for _ in 0..n {
        let mut k = okey(s);
        if merged {
            while e.iter().any(|(j, _)| j.text() == k.text()) {
                k = OKey::Ident(format!("{}x", k.text()));
            }
        }
        let v = mixed_val(s, depth, bias);
        e.push((k, v));
    }
    let mut m = OMap { merged, entries: e };
    if merged {
        refold::sort_map(&mut m);
    }
    m
}

fn mixed_block(s: &mut Src, depth: usize, bias: usize) -> OBlock {
    let merged = match bias {
        0 => false,
        1 => true,
        _ => s.bool(),
    };
    let n = s.len(3);
    let mut e: Vec<(Vec<String>, OMap)> = vec![];
    for _ in 0..n {
        let mut k = labels(s);
        while merged && e.iter().any(|(j, _)| *j == k) {
            k.push("x".into());
        }
        e.push((k, mixed_map(s, depth, bias)));
    }
    if merged {
        e.sort_by(|a, b| a.0.cmp(&b.0));
    }
    OBlock { merged, entries: e }
}

fn mixed_val(s: &mut Src, depth: usize, bias: usize) -> OVal {
    match s.weighted(if depth == 0 { &[1] } else { &[40, 20, 30, 30] }) {
        0 => scalar(s),
        1 => {
            let n = s.len(3);
            OVal::List((0..n).map(|_| mixed_val(s, depth - 1, bias)).collect())
        }
        2 => {
            let n = s.len(3);
            OVal::Object((0..n).map(|_| mixed_map(s, depth - 1, bias)).collect())
        }
        _ => OVal::Block(mixed_block(s, depth - 1, bias)),
    }
}

/// (all collections merged, all unmerged, scalars)
fn facts_val(v: &OVal) -> (bool, bool, usize) {
    let fold = |xs: Vec<(bool, bool, usize)>| xs.iter().fold((true, true, 0), |a, b| (a.0 && b.0, a.1 && b.1, a.2 + b.2));
    match v {
        OVal::List(l) => fold(l.iter().map(facts_val).collect()),
        OVal::Object(l) => fold(l.iter().map(facts_map).collect()),
        OVal::Block(b) => facts_block(b),
        _ => (true, true, 1),
    }
}

fn facts_map(m: &OMap) -> (bool, bool, usize) {
    m.entries.iter().map(|(_, v)| facts_val(v)).fold((m.merged, !m.merged, 0), |a, b| (a.0 && b.0, a.1 && b.1, a.2 + b.2))
}

fn facts_block(b: &OBlock) -> (bool, bool, usize) {
    b.entries.iter().map(|(_, v)| facts_map(v)).fold((b.merged, !b.merged, 0), |a, b| (a.0 && b.0, a.1 && b.1, a.2 + b.2))
}

fn facts<T: Mergeable + ScalarLength>(t: &T) -> (bool, bool, usize) {
    assert_eq!(t.is_empty_scalar(), t.len_scalar() == 0);
    (t.is_merged(), t.is_unmerged(), t.len_scalar())
}

fn check_val(v: &OVal) -> CaseResult {
    let lib = build_val(v);
    let w = facts_val(v);
    same("(merged, unmerged, scalars) of a value", &facts(&lib), &w)?;
    same("the same by reference", &facts(&&lib), &w)?;
    match v {
        OVal::List(l) => {
            same("facts of a list", &facts(lib.borrow_list().unwrap()), &w)?;
            l.iter().try_for_each(check_val)
        }
        OVal::Object(l) => {
            same("facts of an object list", &facts(lib.borrow_map().unwrap()), &w)?;
            l.iter().try_for_each(check_map)
        }
        OVal::Block(b) => {
            same("facts of a block", &facts(lib.borrow_block().unwrap()), &w)?;
            same("facts of borrowed keys", &facts(&lib.borrow_block().unwrap().borrow_keys()), &w)?;
            b.entries.iter().try_for_each(|(_, m)| check_map(m))
        }
        _ => Ok(()),
    }
}

fn check_map(m: &OMap) -> CaseResult {
    let lib = build_map(m);
    same("(merged, unmerged, scalars) of a map", &facts(&lib), &facts_map(m))?;
    m.entries.iter().try_for_each(|(_, v)| check_val(v))
}

/// a type that only says whether it is merged
struct Told(bool);
impl Mergeable for Told {
    fn is_merged(&self) -> bool {
        self.0
    }
}

fn c17_flags(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(0, 2 + s.size);
    let bias = s.below(3);
    let m = mixed_map(s, d, bias);
    c.show = format!("{:?}", m);
    c.nontrivial_if(omap_nodes(&m) >= 3);
    c.label(["unmerged", "merged", "mixed"][bias]);
    check_map(&m)?;
    // generic containers of values
    let vals: Vec<Value> = m.entries.iter().map(|(_, v)| build_val(v)).collect();
    let each: Vec<(bool, bool, usize)> = m.entries.iter().map(|(_, v)| facts_val(v)).collect();
    let all = each.iter().fold((true, true, 0), |a, b| (a.0 && b.0, a.1 && b.1, a.2 + b.2));
    same("facts of a vector", &facts(&vals), &all)?;
    let refs: Vec<&Value> = vals.iter().collect();
    same("facts of a vector of references", &facts(&refs), &all)?;
    let h: HashMap<usize, &Value> = vals.iter().enumerate().collect();
    same("facts of a hash map", &facts(&h), &all)?;
    let kv: KeyValuePairs<usize, &Value> = KeyValuePairs::Merged(h);
    same("facts of merged pairs", &facts(&kv), &(all.0, false, all.2))?;
    let kv: KeyValuePairs<usize, &Value> = KeyValuePairs::Unmerged(vals.iter().enumerate().collect());
    same("facts of unmerged pairs", &facts(&kv), &(false, all.1, all.2))?;
    let many = OneOrMany::Many(refs.clone());
    for b in [true, false] {
        ensure!(Told(b).is_unmerged() != b, "the default of is_unmerged is not the complement of is_merged");
    }
    same("flags of many", &(many.is_merged(), many.is_unmerged()), &(all.0, all.1))?;
    for (v, w) in vals.iter().zip(&each) {
        let one = OneOrMany::One(v);
        same("flags of one", &(one.is_merged(), one.is_unmerged()), &(w.0, w.1))?;
        let pair = (0u8, v);
        same("flags of a pair", &(pair.is_merged(), pair.is_unmerged()), &(w.0, w.1))?;
    }
    match refs.as_slice() {
        [] => {
            let a: [&Value; 0] = [];
            same("array length", &a.len_scalar(), &0)?
        }
        [x] => same("array length", &[*x].len_scalar(), &each[0].2)?,
        [x, y] => same("array length", &[*x, *y].len_scalar(), &(each[0].2 + each[1].2))?,
        [x, y, z, ..] => {
            same("array length", &[*x, *y, *z].len_scalar(), &(each[0].2 + each[1].2 + each[2].2))?;
            let a: [&Value; 32] = std::array::from_fn(|i| refs[i % refs.len()]);
            same("array length", &a.len_scalar(), &(0..32).map(|i| each[i % each.len()].2).sum::<usize>())?;
        }
    }
    Ok(())
}

fn c17_convert(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(0, 2 + s.size);
    let m = match s.below(3) {
        0 => gen_map(s, d, true),
        1 => rich_map(s, d),
        _ => {
            let bias = s.below(2);
            mixed_map(s, d, bias)
        }
    };
    c.show = format!("{:?}", m);
    c.nontrivial_if(m.entries.len() >= 2);
    let lib = build_map(&m);
    // to unmerged: exactly the entries
    let flat = OMap { merged: false, entries: m.entries.clone() };
    let sorted = |mut x: OMap| {
        if m.merged {
            refold::sort_map(&mut x)
        }
        x
    };
    same("as_unmerged", &sorted(read_map(&lib.as_unmerged())), &flat)?;
    same("as_unmerged left its receiver", &read_map(&lib), &m)?;
    same("unmerge", &sorted(read_map(&lib.clone().unmerge())), &flat)?;
    // to merged: borrowing and consuming agree
    let (a, b) = (lib.as_merged(), lib.clone().merge());
    same("as_merged left its receiver", &read_map(&lib), &m)?;
    match (a, b) {
        (Ok(a), Ok(b)) => {
            c.label("merged");
            same("as_merged against merge", &read_map(&a), &read_map(&b))?;
            ensure!(a == b, "as_merged and merge differ");
            let r = read_map(&b);
            ensure!(r.merged && b.is_merged(), "merge left something unmerged");
            same("scalars before and after merging", &b.len_scalar(), &lib.len_scalar())?;
            let back = b.clone().unmerge();
            let mut br = read_map(&back);
            ensure!(!br.merged, "unmerge left the collection merged");
            refold::sort_map(&mut br);
            same("entries after unmerge", &br.entries, &r.entries)?;
            let again = back.merge().map_err(|e| format!("unmerged collection does not merge again: {}", disp(&e)))?;
            same("merged, unmerged, merged", &read_map(&again), &r)?;
            ensure!(again == b, "not restored");
        }
        (Err(_), Err(_)) => {}
        (a, b) => return Err(format!("as_merged is {:?} but merge is {:?}", a.map(|v| read_map(&v)).map_err(|e| disp(&e)), b.map(|v| read_map(&v)).map_err(|e| disp(&e)))),
    }
    // the same for blocks
    let bias = s.below(2);
    let b = mixed_block(s, d.min(2), bias);
    let lib = build_vblock(&b);
    let sortb = |mut x: OBlock| {
        if b.merged {
            x.entries.sort_by(|a, b| a.0.cmp(&b.0));
        }
        x
    };
    let flat = OBlock { merged: false, entries: b.entries.clone() };
    same("block as_unmerged", &sortb(read_vblock(&lib.as_unmerged())), &flat)?;
    same("block unmerge", &sortb(read_vblock(&lib.clone().unmerge())), &flat)?;
    same("block left unchanged", &read_vblock(&lib), &b)?;
    let (x, y) = (lib.as_merged(), lib.clone().merge());
    match (x, y) {
        (Ok(x), Ok(y)) => {
            same("block as_merged against merge", &read_vblock(&x), &read_vblock(&y))?;
            let again = y.clone().unmerge().merge().map_err(|e| disp(&e))?;
            same("block merged, unmerged, merged", &read_vblock(&again), &read_vblock(&y))?;
            let keys = y.borrow_keys();
            for (k, v) in &y {
                let k2: Vec<&str> = k.iter().map(|x| x.as_str()).collect();
                let got = keys.get::<[&str]>(&k2).ok_or_else(|| format!("labels {:?} not found", k))?.unwrap_one();
                same("lookup by borrowed labels", &read_map(got), &read_map(v))?;
            }
        }
        (Err(_), Err(_)) => {}
        _ => return Err("block as_merged and merge disagree".into()),
    }
    let keys = lib.borrow_keys();
    ensure!(keys.len() == b.entries.len(), "borrowed keys lost entries");
    let mut got: Vec<(Vec<String>, OMap)> = keys.iter().map(|(k, v)| (k.iter().map(|x| x.to_string()).collect(), read_map(v))).collect();
    if b.merged {
        got.sort_by(|a, b| a.0.cmp(&b.0));
    }
    same("borrowed keys", &got, &b.entries)
}

// ------------------------------------------------------------------ C18

const NAMES: [&str; 8] = ["Null", "Integer", "Float", "Boolean", "String", "List", "Object", "Block"];

fn kind_of(v: &OVal) -> usize {
    match v {
        OVal::Null => 0,
        OVal::Int(_) => 1,
        OVal::Float(_) => 2,
        OVal::Bool(_) => 3,
        OVal::Str(_) => 4,
        OVal::List(_) => 5,
        OVal::Object(_) => 6,
        OVal::Block(_) => 7,
    }
}

fn wrong(what: &str, e: &Error, expected: usize, actual: usize) -> CaseResult {
    match e {
        Error::UnexpectedVariant { enum_type, expected: x, actual: a } => {
            ensure!(*enum_type == "Value" && *x == NAMES[expected] && *a == NAMES[actual], "{} on a {} says: {}", what, NAMES[actual], e);
            // and the message says so too
            let t = format!("{}", e);
            ensure!(t.contains(NAMES[expected]) && t.contains(NAMES[actual]), "{}: message {:?} does not name the kinds", what, t);
            Ok(())
        }
        e => Err(format!("{} on a {}: {}", what, NAMES[actual], e)),
    }
}

macro_rules! accessor {
    ($v:expr, $m:expr, $k:expr, $want:expr, $name:ident, $unwrap:ident, $read:expr) => {{
        let v = $v;
        let r = v.$name();
        if $k == $want {
            let g = r.map_err(|e| format!("{}: {}", stringify!($name), e))?;
            same(stringify!($name), &$read(g), $m)?;
            same(stringify!($unwrap), &$read($v.$unwrap()), $m)?;
        } else {
            match r {
                Ok(_) => return Err(format!("{} succeeded on a {}", stringify!($name), NAMES[$k])),
                Err(e) => wrong(stringify!($name), &e, $want, $k)?,
            }
            if guard(|| {
                let _ = $v.$unwrap();
            })
            .is_ok()
            {
                return Err(format!("{} did not panic on a {}", stringify!($unwrap), NAMES[$k]));
            }
        }
    }};
}

macro_rules! consume {
    ($v:expr, $m:expr, $k:expr, $want:expr, $name:ident, $unwrap:ident, $read:expr) => {{
        match $v.clone().$name() {
            Ok(g) => {
                ensure!($k == $want, "{} succeeded on a {}", stringify!($name), NAMES[$k]);
                same(stringify!($name), &$read(g), $m)?;
                same(stringify!($unwrap), &$read($v.clone().$unwrap()), $m)?;
            }
            Err((e, back)) => {
                ensure!($k != $want, "{} failed on its own kind: {}", stringify!($name), e);
                wrong(stringify!($name), &e, $want, $k)?;
                same("value handed back", &read_val(&back), $m)?;
                if guard(|| {
                    let _ = $v.clone().$unwrap();
                })
                .is_ok()
                {
                    return Err(format!("{} did not panic on a {}", stringify!($unwrap), NAMES[$k]));
                }
            }
        }
    }};
}

fn accessors(m: &OVal) -> CaseResult {
    let k = kind_of(m);
    let mut v = build_val(m);
    let tests = [v.is_null(), v.is_integer(), v.is_float(), v.is_boolean(), v.is_string(), v.is_list(), v.is_map(), v.is_block()];
    for (i, t) in tests.iter().enumerate() {
        ensure!(*t == (i == k), "kind test for {} answers {} on a {}", NAMES[i], t, NAMES[k]);
    }
    ensure!(v.is_body() == (k == 6), "is_body on a {}", NAMES[k]);
    same("variant_name", &v.variant_name(), &NAMES[k])?;
    if k != 0 {
        ensure!(v.is_scalar() == (1..=4).contains(&k), "is_scalar on a {}", NAMES[k]);
    }
    ensure!(v.is_aggregate() != v.is_scalar(), "both or neither of is_scalar and is_aggregate on a {}", NAMES[k]);
    let len = v.len();
    let want = match m {
        OVal::List(l) => Some(l.len()),
        OVal::Object(l) => Some(l.len()),
        OVal::Block(b) => Some(b.entries.len()),
        OVal::Null => None,
        _ => Some(1),
    };
    if let Some(w) = want {
        same("len", &len, &w)?;
    }
    ensure!(v.is_empty() == (len == 0), "is_empty with length {}", len);
    accessor!(&v, m, k, 1, integer, unwrap_integer, OVal::Int);
    accessor!(&v, m, k, 2, float, unwrap_float, |f: f64| OVal::Float(f.to_bits()));
    accessor!(&v, m, k, 3, boolean, unwrap_boolean, OVal::Bool);
    accessor!(&v, m, k, 4, borrow_str, unwrap_borrow_str, |t: &str| OVal::Str(t.to_string()));
    accessor!(&mut v, m, k, 4, borrow_string_mut, unwrap_borrow_string_mut, |t: &mut String| OVal::Str(t.clone()));
    let rl = |l: &[Value]| OVal::List(l.iter().map(read_val).collect());
    let ro = |l: &[MapValues]| OVal::Object(l.iter().map(read_map).collect());
    accessor!(&v, m, k, 5, borrow_list, unwrap_borrow_list, |l: &Vec<Value>| rl(l));
    accessor!(&mut v, m, k, 5, borrow_list_mut, unwrap_borrow_list_mut, |l: &mut Vec<Value>| rl(l));
    accessor!(&v, m, k, 6, borrow_map, unwrap_borrow_map, |l: &Vec<MapValues>| ro(l));
    accessor!(&mut v, m, k, 6, borrow_map_mut, unwrap_borrow_map_mut, |l: &mut Vec<MapValues>| ro(l));
    accessor!(&v, m, k, 7, borrow_block, unwrap_borrow_block, |b: &value::Block| OVal::Block(read_vblock(b)));
    accessor!(&mut v, m, k, 7, borrow_block_mut, unwrap_borrow_block_mut, |b: &mut value::Block| OVal::Block(read_vblock(b)));
    consume!(v, m, k, 4, string, unwrap_string, OVal::Str);
    consume!(v, m, k, 5, list, unwrap_list, |l: Vec<Value>| rl(&l));
    consume!(v, m, k, 6, map, unwrap_map, |l: Vec<MapValues>| ro(&l));
    consume!(v, m, k, 7, block, unwrap_block, |b: value::Block| OVal::Block(read_vblock(&b)));
    same("value after all of this", &read_val(&v), m)
}

fn c18_accessors(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(0, 2);
    let m = mixed_val(s, d, 2);
    c.show = format!("{:?}", m);
    c.nontrivial = true;
    c.label(NAMES[kind_of(&m)]);
    accessors(&m)?;
    match &m {
        OVal::List(l) => l.iter().try_for_each(accessors),
        OVal::Object(l) => l.iter().flat_map(|m| &m.entries).try_for_each(|(_, v)| accessors(v)),
        _ => Ok(()),
    }
}

fn c18_mutate(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(1, 2);
    let mut m = mixed_val(s, d, 2);
    c.show = format!("{:?}", m);
    let mut v = build_val(&m);
    c.nontrivial_if(kind_of(&m) >= 4);
    let extra = scalar(s);
    match &mut m {
        OVal::Str(t) => {
            t.push_str("more");
            v.borrow_string_mut().map_err(|e| disp(&e))?.push_str("more");
        }
        OVal::List(l) => {
            l.push(extra.clone());
            v.unwrap_borrow_list_mut().push(build_val(&extra));
            if s.bool() && l.len() > 1 {
                l.remove(0);
                v.borrow_list_mut().map_err(|e| disp(&e))?.remove(0);
            }
        }
        OVal::Object(l) => {
            let e = OMap::un(vec![(OKey::Ident("k".into()), extra)]);
            v.unwrap_borrow_map_mut().push(build_map(&e));
            l.push(e);
        }
        OVal::Block(b) => {
            let e = OMap::un(vec![(OKey::Ident("k".into()), extra)]);
            let key = vec!["fresh".to_string()];
            v.borrow_block_mut().map_err(|e| disp(&e))?.extend(vec![(key.clone(), build_map(&e))]);
            if b.merged {
                b.entries.retain(|(k, _)| *k != key);
            }
            b.entries.push((key, e));
            if b.merged {
                b.entries.sort_by(|a, b| a.0.cmp(&b.0));
            }
        }
        _ => {}
    }
    same("after the write", &read_val(&v), &m)?;
    accessors(&m)
}
