//! Reference parser for the value-tree grammar, and a reference merge. No nom, no library code.
use crate::model::*;
use crate::refp::{boolean, identifier, iw, newline, null, number, quoted, string, ws, No, R};

fn lit(s: &str, p: usize, t: &str) -> Result<usize, No> {
    if s[p..].starts_with(t) {
        Ok(p + t.len())
    } else {
        Err(No::Soft)
    }
}

pub fn num_value(t: &str) -> OVal {
    match t.parse::<i64>() {
        Ok(i) => OVal::Int(i),
        Err(_) => OVal::Float(t.parse::<f64>().expect("number literal").to_bits()),
    }
}

macro_rules! alt {
    ($e:expr, $k:expr) => {
        match $e {
            Ok((v, q)) => return Ok(($k(v), q)),
            Err(No::Fatal) => return Err(No::Fatal),
            Err(No::Soft) => {}
        }
    };
}

pub fn single_value(s: &str, p: usize) -> R<OVal> {
    alt!(null(s, p), |_| OVal::Null);
    alt!(number(s, p), |t: String| num_value(&t));
    alt!(boolean(s, p), OVal::Bool);
    alt!(string(s, p), OVal::Str);
    alt!(list(s, p), OVal::List);
    alt!(map_expression(s, p), |m| OVal::Object(vec![m]));
    Err(No::Soft)
}

fn list(s: &str, p: usize) -> R<Vec<OVal>> {
    let mut q = ws(s, lit(s, p, "[")?);
    let mut v = vec![];
    match single_value(s, q) {
        Ok((x, r)) => {
            v.push(x);
            q = r;
            loop {
                let Ok(r) = lit(s, ws(s, q), ",") else { break };
                match single_value(s, ws(s, r)) {
                    Ok((x, r)) => {
                        v.push(x);
                        q = r;
                    }
                    Err(No::Soft) => break,
                    Err(e) => return Err(e),
                }
            }
        }
        Err(No::Soft) => {}
        Err(e) => return Err(e),
    }
    q = ws(s, q);
    if let Ok(r) = lit(s, q, ",") {
        q = ws(s, r);
    }
    let q = lit(s, q, "]")?;
    Ok((v, q))
}

fn map_expression(s: &str, p: usize) -> R<OMap> {
    let q = lit(s, ws(s, p), "{")?;
    let (m, q) = map_values(s, ws(s, q))?;
    let q = lit(s, ws(s, q), "}")?;
    Ok((m, q))
}

fn key(s: &str, p: usize) -> R<OKey> {
    alt!(identifier(s, p), OKey::Ident);
    alt!(quoted(s, p, false), OKey::Str);
    Err(No::Soft)
}

fn assignment(s: &str, p: usize) -> R<(OKey, OVal)> {
    let (k, q) = key(s, iw(s, p))?;
    let q = lit(s, iw(s, q), "=")?;
    let (v, q) = single_value(s, iw(s, q))?;
    Ok(((k, v), q))
}

fn block(s: &str, p: usize) -> R<(OKey, OVal)> {
    let (t, q) = identifier(s, iw(s, p))?;
    let mut q = q;
    let mut labels = vec![];
    loop {
        match quoted(s, iw(s, q), false) {
            Ok((l, r)) => {
                labels.push(l);
                q = r;
            }
            Err(No::Soft) => break,
            Err(e) => return Err(e),
        }
    }
    let (m, q) = map_expression(s, iw(s, q))?;
    let v = if labels.is_empty() { OVal::Object(vec![m]) } else { OVal::Block(OBlock { merged: false, entries: vec![(labels, m)] }) };
    Ok(((OKey::Ident(t), v), q))
}

pub fn attribute(s: &str, p: usize) -> R<(OKey, OVal)> {
    let (kv, q) = match assignment(s, p) {
        Err(No::Soft) => block(s, p)?,
        r => r?,
    };
    Ok((kv, iw(s, q)))
}

pub fn map_values(s: &str, p: usize) -> R<OMap> {
    let mut v = vec![];
    let mut q = p;
    loop {
        let (kv, r) = match attribute(s, ws(s, q)) {
            Ok(x) => x,
            Err(No::Soft) => break,
            Err(e) => return Err(e),
        };
        let r = if let Ok(t) = lit(s, ws(s, r), ",") {
            ws(s, t)
        } else if let Ok((_, t)) = newline(s, r) {
            t
        } else if r == s.len() {
            r
        } else {
            break;
        };
        v.push(kv);
        q = r;
    }
    Ok((OMap::un(v), ws(s, q)))
}

pub fn document(s: &str) -> Option<OMap> {
    match map_values(s, 0) {
        Ok((m, q)) if q == s.len() => Some(m),
        _ => None,
    }
}

// ------------------------------------------------------------------ merging

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Clash {
    /// a repeated scalar or list
    Multiple(String, &'static str),
    /// object against block and the like: key, existing, incoming
    Kinds(String, &'static str, &'static str),
    /// two blocks with the same labels: their type, where it is known, and labels
    Block(Vec<String>),
}

pub fn kind(v: &OVal) -> &'static str {
    match v {
        OVal::Null => "Null",
        OVal::Int(_) => "Integer",
        OVal::Float(_) => "Float",
        OVal::Bool(_) => "Boolean",
        OVal::Str(_) => "String",
        OVal::List(_) => "List",
        OVal::Object(_) => "Object",
        OVal::Block(_) => "Block",
    }
}

pub fn merge_val(v: &OVal) -> Result<OVal, Clash> {
    Ok(match v {
        OVal::List(l) => OVal::List(l.iter().map(merge_val).collect::<Result<_, _>>()?),
        OVal::Object(l) => OVal::Object(l.iter().map(merge_map).collect::<Result<_, _>>()?),
        OVal::Block(b) => OVal::Block(merge_block(b)?),
        x => x.clone(),
    })
}

pub fn sort_map(m: &mut OMap) {
    m.entries.sort_by(|a, b| (a.0.text(), &a.0).cmp(&(b.0.text(), &b.0)));
}

/// Every clash a merge may report, in the order a left-to-right merge meets the first.
pub fn merge_map(m: &OMap) -> Result<OMap, Clash> {
    if m.merged {
        return Ok(m.clone());
    }
    let mut out: Vec<(OKey, OVal)> = vec![];
    for (k, v) in &m.entries {
        let v = merge_val(v)?;
        match out.iter_mut().find(|(k2, _)| k2.text() == k.text()) {
            None => out.push((k.clone(), v)),
            Some((_, old)) => match (old, v) {
                (OVal::Object(a), OVal::Object(b)) => a.extend(b),
                (OVal::Block(a), OVal::Block(b)) => {
                    for (l, x) in b.entries {
                        if a.entries.iter().any(|(m, _)| *m == l) {
                            return Err(Clash::Block(std::iter::once(k.text().to_string()).chain(l).collect()));
                        }
                        a.entries.push((l, x));
                    }
                    a.entries.sort_by(|a, b| a.0.cmp(&b.0));
                }
                (o @ OVal::Object(_), v) | (o @ OVal::Block(_), v) => return Err(Clash::Kinds(k.text().to_string(), kind(o), kind(&v))),
                (o, _) => return Err(Clash::Multiple(k.text().to_string(), kind(o))),
            },
        }
    }
    let mut r = OMap { merged: true, entries: out };
    sort_map(&mut r);
    Ok(r)
}

pub fn merge_block(b: &OBlock) -> Result<OBlock, Clash> {
    if b.merged {
        return Ok(b.clone());
    }
    let mut out: Vec<(Vec<String>, OMap)> = vec![];
    for (l, m) in &b.entries {
        let m = merge_map(m)?;
        if out.iter().any(|(k, _)| k == l) {
            return Err(Clash::Block(l.clone()));
        }
        out.push((l.clone(), m));
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    Ok(OBlock { merged: true, entries: out })
}
