//! C12: the index of blocks, against a list of (type, labels, body).
use super::syntax::{build_body, build_label};
use super::containers::adapters;
use super::*;
use crate::ensure;
use crate::gen;
use crate::model::*;
use ferrous_chloride::parser::block::{BlockBody, Blocks};
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::{parse_str, Block, Body};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C12",
        vec![
            check(
                "index-history",
                60_000,
                1_500_000,
                "at least three blocks, two of them of one type and not added one right after the other, or paths that extend each other",
                history,
            ),
            check("ways-of-building", 40_000, 1_000_000, "at least three blocks of at least one type with labels", ways),
            check("one-body", 40_000, 1_000_000, "at least two entries with labels that share a first label or extend each other", one_body),
            check("from-document", 8_000, 200_000, "the document has at least two blocks", from_document),
        ],
    )]
}

#[derive(Clone, Debug, PartialEq)]
struct Entry {
    ty: String,
    labels: Vec<MLabel>,
    body: MBody,
}

impl Entry {
    fn path(&self) -> Vec<String> {
        self.labels.iter().map(|l| l.text().to_string()).collect()
    }
}

fn name(s: &mut Src) -> String {
    if s.chance(1, 12) {
        gen::ident(s)
    } else {
        s.pick(&["a", "b", "c", "aa"]).to_string()
    }
}

fn path(s: &mut Src) -> Vec<MLabel> {
    let n = s.weighted(&[4, 5, 4, 3, 1]);
    let n = if n == 4 && s.chance(1, 4) { s.range(4, 12) } else { n };
    (0..n)
        .map(|_| {
            if s.bool() {
                MLabel::Ident(name(s))
            } else if s.chance(1, 6) {
                MLabel::Lit(s.pick(&["", " ", "a b", "é", "a\n"]).to_string())
            } else {
                MLabel::Lit(name(s))
            }
        })
        .collect()
}

fn mbody(s: &mut Src, id: &mut usize) -> MBody {
    *id += 1;
    let mut v = vec![];
    if !s.chance(1, 8) {
        v.push(MElem::Attr("id".into(), MExpr::Num(format!("{}", id))));
    }
    if s.chance(1, 6) {
        v.push(MElem::Block(MBlock { ty: name(s), labels: vec![], body: vec![] }));
    }
    v
}

fn entry(s: &mut Src, id: &mut usize) -> Entry {
    Entry { ty: name(s), labels: path(s), body: mbody(s, id) }
}

fn bl<'a>(s: &mut Src, e: &'a Entry) -> Block<'a> {
    let labels = e.labels.iter().map(|l| build_label(s, l)).collect();
    let ty = if s.bool() { Cow::Borrowed(e.ty.as_str()) } else { Cow::Owned(e.ty.clone()) };
    Block::new(ty, labels, build_body(s, &e.body))
}

/// bodies by path, each list in insertion order
type Flat = BTreeMap<Vec<String>, Vec<MBody>>;

fn flat<'a, I: IntoIterator<Item = (Vec<String>, &'a MBody)>>(it: I) -> Flat {
    let mut m = Flat::new();
    for (p, b) in it {
        m.entry(p).or_default().push(b.clone());
    }
    m
}

fn read_flat<'x, L: AsRef<str>, I: IntoIterator<Item = (std::collections::VecDeque<L>, Cow<'x, Body<'x>>)>>(it: I) -> Flat {
    let mut m = Flat::new();
    for (p, b) in it {
        m.entry(p.iter().map(|x| x.as_ref().to_string()).collect()).or_default().push(read_body(&b));
    }
    m
}

/// does this body, reached by `at`, hold exactly the entries (path beyond `at`, body)?
fn body_is(at: &str, b: &BlockBody, want: &[(Vec<String>, &MBody)]) -> CaseResult {
    let wflat = flat(want.iter().map(|(p, b)| (p.clone(), *b)));
    let mut got = Flat::new();
    for (p, bd) in b.flat_iter() {
        got.entry(p.iter().map(|x| x.to_string()).collect()).or_default().push(read_body(bd));
    }
    same(&format!("flat_iter {}", at), &got, &wflat)?;
    let got = read_flat(b.clone().flat_into_iter().map(|(p, b)| (p, Cow::Owned(b))));
    same(&format!("flat_into_iter {}", at), &got, &wflat)?;
    let mut c = b.clone();
    {
        let c: &mut BlockBody = unsafe { &mut *(&mut c as *mut _) };
        let mut got = Flat::new();
        for (p, bd) in c.flat_iter_mut() {
            got.entry(p.iter().map(|x| x.to_string()).collect()).or_default().push(read_body(bd));
        }
        same(&format!("flat_iter_mut {}", at), &got, &wflat)?;
    }
    same(&format!("len_blocks {}", at), &b.len_blocks(), &want.len())?;
    let empty: Vec<MBody> = b.get_empty().iter().map(read_body).collect();
    let wempty: Vec<MBody> = want.iter().filter(|(p, _)| p.is_empty()).map(|(_, b)| (*b).clone()).collect();
    same(&format!("get_empty {}", at), &empty, &wempty)?;
    let next: BTreeSet<&str> = want.iter().filter_map(|(p, _)| p.first().map(|x| x.as_str())).collect();
    same(&format!("has_further_labels {}", at), &b.has_further_labels(), &!next.is_empty())?;
    let gl: Vec<String> = {
        let mut v: Vec<String> = b.get_labels().map(|m| m.keys().map(|k| k.as_str().to_string()).collect()).unwrap_or_default();
        v.sort();
        v
    };
    same(&format!("get_labels {}", at), &gl, &next.iter().map(|x| x.to_string()).collect())?;
    let lens: BTreeSet<usize> = want.iter().map(|(p, _)| p.len()).collect();
    if !lens.is_empty() {
        same(&format!("label_lens {}", at), &b.label_lens(), &lens)?;
        let uni = if lens.len() == 1 { lens.iter().next().copied() } else { None };
        same(&format!("label_lens_uniform {}", at), &b.label_lens_uniform(), &uni)?;
        same(&format!("is_label_lens_uniform {}", at), &b.is_label_lens_uniform(), &uni.is_some())?;
    }
    Ok(())
}

/// every way of looking at the index, against the list
fn verify(s: &mut Src, b: &Blocks, list: &[Entry]) -> CaseResult {
    let types: BTreeSet<&str> = list.iter().map(|e| e.ty.as_str()).collect();
    same("len", &b.len(), &types.len())?;
    same("is_empty", &b.is_empty(), &list.is_empty())?;
    same("len_blocks", &b.len_blocks(), &list.len())?;
    let of = |t: &str| -> Vec<(Vec<String>, &MBody)> { list.iter().filter(|e| e.ty == t).map(|e| (e.path(), &e.body)).collect() };
    let want: BTreeMap<String, Flat> = types.iter().map(|t| (t.to_string(), flat(of(t)))).collect();
    // iterations over types
    for how in 0..4 {
        let mut seen: Vec<String> = vec![];
        match how {
            0 => {
                for (t, bb) in b.iter() {
                    seen.push(t.to_string());
                    body_is(&format!("of type {:?} by iter", t), bb, &of(t))?;
                }
            }
            1 => seen.extend(b.into_iter().map(|(t, bb)| format!("{}{}", t, if bb.len_blocks() == of(t).len() { "" } else { "?" }))),
            2 => {
                let mut c = b.clone();
                seen.extend(c.iter_mut().map(|(t, bb)| format!("{}{}", t, if bb.len_blocks() == of(t).len() { "" } else { "?" })));
                let n = (&mut c).into_iter().count();
                same("into_iter of &mut", &n, &types.len())?;
            }
            _ => {
                for (t, bb) in b.clone().into_iter() {
                    seen.push(t.to_string());
                    body_is(&format!("of type {:?} by into_iter", t), &bb, &of(&t))?;
                }
            }
        }
        seen.sort();
        same("types iterated", &seen, &types.iter().map(|t| t.to_string()).collect())?;
    }
    // flat iterations
    let mut got: BTreeMap<String, Flat> = BTreeMap::new();
    for (t, p, bd) in b.flat_iter() {
        got.entry(t.to_string()).or_default().entry(p.iter().map(|x| x.to_string()).collect()).or_default().push(read_body(bd));
    }
    same("flat_iter", &got, &want)?;
    let mut got: BTreeMap<String, Flat> = BTreeMap::new();
    for (t, p, bd) in b.clone().flat_into_iter() {
        got.entry(t.to_string()).or_default().entry(p.iter().map(|x| x.to_string()).collect()).or_default().push(read_body(&bd));
    }
    same("flat_into_iter", &got, &want)?;
    if s.chance(1, 3) {
        let all: Vec<(String, Vec<String>, MBody)> = b.flat_iter().map(|(t, p, bd)| (t.to_string(), p.iter().map(|x| x.to_string()).collect(), read_body(bd))).collect();
        adapters(s, "flat_iter", || b.flat_iter().map(|(t, p, bd)| (t.to_string(), p.iter().map(|x| x.to_string()).collect(), read_body(bd))), &all)?;
        let all: Vec<String> = b.iter().map(|(t, _)| t.to_string()).collect();
        adapters(s, "iter", || b.iter().map(|(t, _)| t.to_string()), &all)?;
        adapters(s, "into_iter of &", || b.into_iter().map(|(t, _)| t.to_string()), &all)?;
    }
    // per-type queries
    let lens: HashMap<&str, BTreeSet<usize>> = types.iter().map(|t| (*t, of(t).iter().map(|(p, _)| p.len()).collect())).collect();
    same("label_lens", &b.label_lens(), &lens)?;
    let uni: HashMap<&str, Option<usize>> =
        lens.iter().map(|(t, l)| (*t, if l.len() == 1 { l.iter().next().copied() } else { None })).collect();
    same("label_lens_uniform", &b.label_lens_uniform(), &uni)?;
    let isu: HashMap<&str, bool> = uni.iter().map(|(t, l)| (*t, l.is_some())).collect();
    same("is_label_lens_uniform", &b.is_label_lens_uniform(), &isu)?;
    // lookups: every prefix of every path, and some that are not there
    let mut asked: BTreeSet<(String, Vec<String>)> = BTreeSet::new();
    for e in list {
        let p = e.path();
        for k in 0..=p.len() {
            asked.insert((e.ty.clone(), p[..k].to_vec()));
        }
    }
    for _ in 0..3 {
        let t = if list.is_empty() || s.chance(1, 3) { name(s) } else { s.pick(list).ty.clone() };
        let mut p: Vec<String> = path(s).iter().map(|l| l.text().to_string()).collect();
        if !list.is_empty() && s.bool() {
            let mut q = s.pick(list).path();
            q.extend(p);
            p = q;
        }
        asked.insert((t, p));
    }
    asked.insert((String::new(), vec![]));
    let mut c = b.clone();
    for (t, p) in &asked {
        let want: Vec<(Vec<String>, &MBody)> =
            of(t).into_iter().filter(|(q, _)| q.starts_with(p)).map(|(q, b)| (q[p.len()..].to_vec(), b)).collect();
        let at = format!("at {:?} {:?}", t, p);
        let refs: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
        let got = b.get(t.as_str(), &refs);
        same(&format!("presence {}", at), &got.is_some(), &!want.is_empty())?;
        if let Some(g) = got {
            body_is(&at, g, &want)?;
        }
        let got2 = b.get(t, p);
        same(&format!("get by owned text {}", at), &got2, &got)?;
        let m = c.get_mut(t, &refs).map(|m| m.clone());
        same(&format!("get_mut {}", at), &m.as_ref(), &got)?;
    }
    same("a clone", &(c == *b), &true)?;
    Ok(())
}

fn interesting(list: &[Entry]) -> bool {
    let split = list.len() >= 3
        && list.iter().enumerate().any(|(i, e)| {
            list.iter().enumerate().any(|(j, f)| j > i + 1 && e.ty == f.ty && list[i + 1..j].iter().any(|g| g.ty != e.ty))
        });
    let ext = list.len() >= 3
        && list.iter().enumerate().any(|(i, e)| {
            list.iter().enumerate().any(|(j, f)| i != j && e.ty == f.ty && f.labels.len() > e.labels.len() && f.path().starts_with(&e.path()))
        });
    split || ext
}

fn history(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let mut id = 0;
    let nops = s.range(1, 6);
    // everything that will ever be added, decided first so that the index can borrow from it
    #[derive(Debug)]
    enum Op {
        Append(Entry),
        Extend(Vec<Entry>),
        /// through get_mut: add below an existing path
        Below(String, Vec<String>, Vec<MLabel>, MBody),
        /// through get_mut: add an attribute to every body exactly there
        Touch(String, Vec<String>),
        TouchAll(usize),
        Rebuild,
    }
    let start: Vec<Entry> = (0..s.len(6)).map(|_| entry(s, &mut id)).collect();
    let mut known: Vec<Entry> = start.clone();
    let mut ops = vec![];
    for _ in 0..nops {
        let op = match s.weighted(&[5, 3, 2, 2, 1, 1]) {
            0 => {
                let e = entry(s, &mut id);
                known.push(e.clone());
                Op::Append(e)
            }
            1 => {
                let v: Vec<Entry> = (0..s.len(5)).map(|_| entry(s, &mut id)).collect();
                known.extend(v.iter().cloned());
                Op::Extend(v)
            }
            k @ (2 | 3) if !known.is_empty() => {
                let e = s.pick(&known).clone();
                let p = e.path();
                let n = if s.bool() { p.len() } else { s.range(0, p.len()) };
                if k == 2 {
                    let more = path(s);
                    let b = mbody(s, &mut id);
                    // known under its full path, so that later operations can name it
                    let mut full: Vec<MLabel> = e.labels[..n].to_vec();
                    full.extend(more.iter().cloned());
                    known.push(Entry { ty: e.ty.clone(), labels: full, body: b.clone() });
                    Op::Below(e.ty.clone(), p[..n].to_vec(), more, b)
                } else {
                    Op::Touch(e.ty.clone(), p[..n].to_vec())
                }
            }
            4 => Op::TouchAll(s.below(3)),
            _ => Op::Rebuild,
        };
        ops.push(op);
    }
    cx.show = format!("start {:?}; then {:?}", start, ops);
    let mark = MElem::Attr("touched".into(), MExpr::Bool(true));
    let lib_mark = || -> BodyElement<'static> { BodyElement::Attribute(("touched".into(), true.into())) };

    let mut list: Vec<Entry> = start.clone();
    let mut b: Blocks = {
        let v: Vec<Block> = start.iter().map(|e| bl(s, e)).collect();
        if s.bool() {
            Blocks::new(v)
        } else {
            v.into_iter().collect()
        }
    };
    verify(s, &b, &list)?;
    for op in &ops {
        match op {
            Op::Append(e) => {
                b.append(bl(s, e));
                list.push(e.clone());
            }
            Op::Extend(v) => {
                let w: Vec<Block> = v.iter().map(|e| bl(s, e)).collect();
                b.extend(w);
                list.extend(v.iter().cloned());
            }
            Op::Below(t, p, more, body) => match b.get_mut(t, p) {
                None => return Err(format!("get_mut found nothing at {:?} {:?}", t, p)),
                Some(m) => {
                    let ls = more.iter().map(|l| build_label(s, l)).collect();
                    m.append(ls, build_body(s, body));
                    let mut labels: Vec<MLabel> = p.iter().map(|x| MLabel::Lit(x.clone())).collect();
                    labels.extend(more.iter().cloned());
                    list.push(Entry { ty: t.clone(), labels, body: body.clone() });
                    cx.label("added below");
                }
            },
            Op::Touch(t, p) => match b.get_mut(t, p) {
                None => return Err(format!("get_mut found nothing at {:?} {:?}", t, p)),
                Some(m) => {
                    let bodies = match m {
                        BlockBody::Body(v) => v,
                        BlockBody::Labels { empty, .. } => empty,
                    };
                    for x in bodies.iter_mut() {
                        x.push(lib_mark());
                    }
                    for e in list.iter_mut().filter(|e| e.ty == *t && e.path() == *p) {
                        e.body.push(mark.clone());
                    }
                    cx.label("changed in place");
                }
            },
            Op::TouchAll(how) => {
                match how {
                    0 => {
                        let b: &mut Blocks = unsafe { &mut *(&mut b as *mut _) };
                        for (_, _, x) in b.flat_iter_mut() {
                            x.push(lib_mark());
                        }
                    }
                    1 => {
                        for (_, bb) in b.iter_mut() {
                            let bb: &mut BlockBody = unsafe { &mut *(bb as *mut _) };
                            for (_, x) in bb.flat_iter_mut() {
                                x.push(lib_mark());
                            }
                        }
                    }
                    _ => {
                        for (_, bb) in &mut b {
                            let bb: &mut BlockBody = unsafe { &mut *(bb as *mut _) };
                            for (_, x) in bb.flat_iter_mut() {
                                x.push(lib_mark());
                            }
                        }
                    }
                }
                for e in list.iter_mut() {
                    e.body.push(mark.clone());
                }
                cx.label("changed everywhere");
            }
            Op::Rebuild => {
                // take apart and put together again: per path, the order stays
                let parts: Vec<Block> = b
                    .clone()
                    .flat_into_iter()
                    .map(|(t, p, x)| Block::new(t, p.into_iter().map(|l| ferrous_chloride::parser::block::BlockLabel::Identifier(l)).collect(), x))
                    .collect();
                let c = Blocks::new(parts);
                same("rebuilt from its own parts", &c, &b)?;
                b = c;
                cx.label("rebuilt");
            }
        }
        verify(s, &b, &list)?;
    }
    cx.nontrivial = interesting(&list);
    cx.label_if(list.iter().any(|e| e.labels.len() > 3), "more than three labels");
    Ok(())
}

fn ways(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let mut id = 0;
    let list: Vec<Entry> = (0..s.len(12)).map(|_| entry(s, &mut id)).collect();
    cx.show = format!("{:?}", list);
    cx.nontrivial = list.len() >= 3 && list.iter().any(|e| !e.labels.is_empty());
    let at_once = Blocks::new(list.iter().map(|e| bl(s, e)).collect::<Vec<_>>());
    let mut one_by_one = Blocks::new(vec![]);
    for e in &list {
        one_by_one.append(bl(s, e));
    }
    let collected: Blocks = list.iter().map(|e| bl(s, e)).collect::<Vec<_>>().into_iter().collect();
    let cut = s.range(0, list.len());
    let mut split: Blocks = list[..cut].iter().map(|e| bl(s, e)).collect();
    let rest: Vec<Block> = list[cut..].iter().map(|e| bl(s, e)).collect();
    split.extend(rest);
    same("adding one by one", &one_by_one, &at_once)?;
    same("collecting", &collected, &at_once)?;
    same("building a part and extending", &split, &at_once)?;
    // another order of blocks whose paths differ makes no difference
    let mut other = list.clone();
    for _ in 0..4 {
        if other.len() < 2 {
            break;
        }
        let i = s.below(other.len() - 1);
        let (x, y) = (&other[i], &other[i + 1]);
        if (x.ty.clone(), x.path()) != (y.ty.clone(), y.path()) {
            other.swap(i, i + 1);
        }
    }
    let reordered: Blocks = other.iter().map(|e| bl(s, e)).collect();
    same("swapping neighbours with different paths", &reordered, &at_once)?;
    verify(s, &at_once, &list)?;
    // and it does differ when a body differs
    if !list.is_empty() {
        let i = s.below(list.len());
        let mut alt = list.clone();
        alt[i].body.push(MElem::Attr("more".into(), MExpr::Null));
        let c: Blocks = alt.iter().map(|e| bl(s, e)).collect();
        ensure!(c != at_once, "indices with different bodies compare equal");
        let mut fewer = list.clone();
        fewer.remove(i);
        let c: Blocks = fewer.iter().map(|e| bl(s, e)).collect();
        ensure!(c != at_once, "an index compares equal to one with a block less");
    }
    Ok(())
}

fn one_body(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let mut id = 0;
    let list: Vec<Entry> = (0..s.len(8)).map(|_| entry(s, &mut id)).collect();
    cx.show = format!("{:?}", list.iter().map(|e| (&e.labels, &e.body)).collect::<Vec<_>>());
    cx.nontrivial = list.iter().enumerate().any(|(i, e)| {
        list.iter().enumerate().any(|(j, f)| {
            i != j && !e.labels.is_empty() && !f.labels.is_empty() && (e.labels[0].text() == f.labels[0].text())
        })
    });
    let want: Vec<(Vec<String>, &MBody)> = list.iter().map(|e| (e.path(), &e.body)).collect();
    let mut a = BlockBody::new();
    for (i, e) in list.iter().enumerate() {
        let ls = e.labels.iter().map(|l| build_label(s, l)).collect();
        a.append(ls, build_body(s, &e.body));
        body_is("after append", &a, &want[..=i])?;
    }
    body_is("appended", &a, &want)?;
    let parts: Vec<_> = list
        .iter()
        .map(|e| (e.labels.iter().map(|l| build_label(s, l)).collect::<Vec<_>>(), build_body(s, &e.body)))
        .collect();
    let b: BlockBody = parts.clone().into_iter().collect();
    let mut c = BlockBody::default();
    let cut = s.range(0, parts.len());
    c.extend(parts[..cut].to_vec());
    c.extend(parts[cut..].to_vec());
    same("collected", &b, &a)?;
    same("extended", &c, &a)?;
    // lookups below
    for e in &list {
        let p = e.path();
        for k in 0..=p.len() {
            let w: Vec<(Vec<String>, &MBody)> =
                want.iter().filter(|(q, _)| q.starts_with(&p[..k])).map(|(q, b)| (q[k..].to_vec(), *b)).collect();
            match a.get(&p[..k]) {
                None => return Err(format!("nothing at {:?}", &p[..k])),
                Some(g) => body_is(&format!("at {:?}", &p[..k]), g, &w)?,
            }
        }
        let mut q = p.clone();
        q.push("nowhere".into());
        ensure!(a.get(&q).is_none(), "something at {:?}", q);
        ensure!(a.get_mut(&q).is_none(), "something at {:?} for get_mut", q);
    }
    Ok(())
}

fn from_document(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let (_, lay) = gen::doc(s);
    let text = lay.out;
    cx.show = text.clone();
    let body = match guard(|| parse_str(&text))? {
        Ok(b) => b,
        Err(_) => {
            cx.discard = true;
            return Ok(());
        }
    };
    let blocks: Vec<Block> = body.iter().filter(|e| e.is_block()).map(|e| e.clone().unwrap_block()).collect();
    let list: Vec<Entry> = blocks
        .iter()
        .map(read_block)
        .map(|b| Entry { ty: b.ty, labels: b.labels, body: b.body })
        .collect();
    cx.nontrivial = list.len() >= 2;
    let idx: Blocks = blocks.into_iter().collect();
    verify(s, &idx, &list)
}
