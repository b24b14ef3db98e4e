//! Reference parser for the syntax-tree grammar, written independently of nom: plain recursive descent
//! over bytes/chars. Every function takes the whole text and a byte position and returns the value and the
//! position after it. `Fatal` marks an invalid escape, which rejects the whole document.
use crate::model::*;
use crate::unicode::{id_continue, id_start};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum No {
    Soft,
    Fatal,
}
pub type R<T> = Result<(T, usize), No>;

fn at(s: &str, p: usize) -> &str {
    &s[p..]
}

fn lit(s: &str, p: usize, t: &str) -> R<()> {
    if at(s, p).starts_with(t) {
        Ok(((), p + t.len()))
    } else {
        Err(No::Soft)
    }
}

pub fn eol(s: &str, p: usize) -> R<()> {
    if at(s, p).starts_with('\n') {
        Ok(((), p + 1))
    } else if at(s, p).starts_with("\r\n") {
        Ok(((), p + 2))
    } else {
        Err(No::Soft)
    }
}

/// contents of an inline comment
pub fn inline_comment(s: &str, p: usize) -> R<String> {
    let (_, q) = lit(s, p, "/*")?;
    match at(s, q).find("*/") {
        Some(i) => Ok((s[q..q + i].to_string(), q + i + 2)),
        None => Err(No::Soft),
    }
}

fn line_comment_with(s: &str, p: usize, mark: &str) -> R<String> {
    let (_, q) = lit(s, p, mark)?;
    let n = at(s, q).find(['\r', '\n']).unwrap_or(s.len() - q);
    let (_, r) = eol(s, q + n)?;
    Ok((s[q..q + n].to_string(), r))
}
pub fn hash_comment(s: &str, p: usize) -> R<String> {
    line_comment_with(s, p, "#")
}
pub fn slash_comment(s: &str, p: usize) -> R<String> {
    line_comment_with(s, p, "//")
}
pub fn line_comment(s: &str, p: usize) -> R<String> {
    hash_comment(s, p).or_else(|_| slash_comment(s, p))
}

pub fn iw(s: &str, mut p: usize) -> usize {
    loop {
        if let Ok((_, q)) = inline_comment(s, p) {
            p = q;
            continue;
        }
        match at(s, p).chars().next() {
            Some(' ') | Some('\t') => p += 1,
            _ => return p,
        }
    }
}

pub fn ws(s: &str, mut p: usize) -> usize {
    loop {
        if let Ok((_, q)) = line_comment(s, p) {
            p = q;
            continue;
        }
        if let Ok((_, q)) = inline_comment(s, p) {
            p = q;
            continue;
        }
        match at(s, p).chars().next() {
            Some(' ') | Some('\t') | Some('\r') | Some('\n') => p += 1,
            _ => return p,
        }
    }
}

pub fn newline(s: &str, p: usize) -> R<()> {
    let one = |p: usize| -> Option<usize> {
        if let Ok((_, q)) = line_comment(s, p) {
            return Some(q);
        }
        if let Ok((_, q)) = inline_comment(s, p) {
            if let Ok((_, r)) = eol(s, q) {
                return Some(r);
            }
        }
        eol(s, p).ok().map(|x| x.1)
    };
    let mut q = one(p).ok_or(No::Soft)?;
    while let Some(r) = one(q) {
        q = r;
    }
    Ok(((), q))
}

pub fn identifier(s: &str, p: usize) -> R<String> {
    let mut q = p;
    for c in at(s, p).chars() {
        let ok = if q == p { id_start(c) || c == '_' } else { id_continue(c) || c == '-' };
        if !ok {
            break;
        }
        q += c.len_utf8();
    }
    if q == p {
        Err(No::Soft)
    } else {
        Ok((s[p..q].to_string(), q))
    }
}

fn digits(s: &str, p: usize) -> usize {
    let b = s.as_bytes();
    let mut q = p;
    while q < b.len() && b[q].is_ascii_digit() {
        q += 1;
    }
    q
}

/// text of a number literal
pub fn number(s: &str, p: usize) -> R<String> {
    let b = s.as_bytes();
    let mut q = p;
    if q < b.len() && (b[q] == b'+' || b[q] == b'-') {
        q += 1;
    }
    let w = digits(s, q);
    if w > q {
        q = w;
        if q < b.len() && b[q] == b'.' {
            q = digits(s, q + 1);
        }
    } else {
        if q < b.len() && b[q] == b'.' {
            let f = digits(s, q + 1);
            if f == q + 1 {
                return Err(No::Soft);
            }
            q = f;
        } else {
            return Err(No::Soft);
        }
    }
    if q < b.len() && (b[q] == b'e' || b[q] == b'E') {
        let mut r = q + 1;
        if r < b.len() && (b[r] == b'+' || b[r] == b'-') {
            r += 1;
        }
        let e = digits(s, r);
        if e > r {
            q = e;
        }
    }
    Ok((s[p..q].to_string(), q))
}

pub fn boolean(s: &str, p: usize) -> R<bool> {
    if let Ok((_, q)) = lit(s, p, "true") {
        return Ok((true, q));
    }
    lit(s, p, "false").map(|(_, q)| (false, q))
}

pub fn null(s: &str, p: usize) -> R<()> {
    lit(s, p, "null")
}

/// Decode one escape starting after the backslash.
fn escape(s: &str, p: usize) -> R<char> {
    let c = at(s, p).chars().next().ok_or(No::Soft)?;
    let simple = match c {
        'a' => Some('\x07'),
        'b' => Some('\x08'),
        'f' => Some('\x0c'),
        'n' => Some('\n'),
        'r' => Some('\r'),
        't' => Some('\t'),
        'v' => Some('\x0b'),
        '\\' => Some('\\'),
        '"' => Some('"'),
        '?' => Some('?'),
        _ => None,
    };
    if let Some(x) = simple {
        return Ok((x, p + 1));
    }
    let (radix, max, start) = match c {
        '0'..='7' => (8, 3, p),
        'x' => (16, 2, p + 1),
        'u' => (16, 4, p + 1),
        'U' => (16, 8, p + 1),
        _ => return Err(No::Fatal),
    };
    let mut v: u32 = 0;
    let mut n = 0;
    for d in at(s, start).chars().take(max) {
        match d.to_digit(radix) {
            Some(x) if d.is_ascii() => {
                v = v * radix + x;
                n += 1;
            }
            _ => break,
        }
    }
    if n == 0 {
        return Err(No::Fatal);
    }
    char::from_u32(v).map(|c| (c, start + n)).ok_or(No::Fatal)
}

/// escaped content up to the first character that is neither legal nor a backslash
pub fn string_content(s: &str, mut p: usize, multiline: bool) -> R<String> {
    let mut out = String::new();
    while let Some(c) = at(s, p).chars().next() {
        if c == '\\' {
            let (x, q) = escape(s, p + 1)?;
            out.push(x);
            p = q;
        } else if c == '"' || (!multiline && (c == '\r' || c == '\n')) {
            break;
        } else {
            out.push(c);
            p += c.len_utf8();
        }
    }
    Ok((out, p))
}

pub fn quoted(s: &str, p: usize, multiline: bool) -> R<String> {
    let (_, q) = lit(s, p, "\"")?;
    let (v, q) = string_content(s, q, multiline)?;
    let (_, q) = lit(s, q, "\"")?;
    Ok((v, q))
}

/// (identifier, indented)
pub fn heredoc_begin(s: &str, p: usize) -> R<(String, bool)> {
    let (_, q) = lit(s, p, "<<")?;
    let (ind, q) = match lit(s, q, "-") {
        Ok((_, q)) => (true, q),
        Err(_) => (false, q),
    };
    let n = at(s, q).find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(s.len() - q);
    if n == 0 {
        return Err(No::Soft);
    }
    eol(s, q + n)?;
    Ok(((s[q..q + n].to_string(), ind), q + n))
}

pub fn heredoc_end(s: &str, p: usize, id: &str, indented: bool) -> R<usize> {
    let (_, q) = eol(s, p)?;
    let n = at(s, q).find(|c| c != ' ' && c != '\t').unwrap_or(s.len() - q);
    let (_, r) = lit(s, q + n, id)?;
    eol(s, r)?;
    Ok((if indented { n } else { 0 }, r))
}

pub fn unindent(s: &str, n: usize) -> String {
    let lines: Vec<&str> = s
        .split('\n')
        .map(|l| {
            let lead = l.bytes().take_while(|b| *b == b' ').count().min(n);
            &l[lead..]
        })
        .collect();
    lines.join("\n")
}

pub fn heredoc(s: &str, p: usize) -> R<String> {
    let ((id, ind), q) = heredoc_begin(s, p)?;
    if let Ok((_, r)) = heredoc_end(s, q, &id, ind) {
        return Ok((String::new(), r));
    }
    let (_, start) = eol(s, q)?;
    let mut i = start;
    while i < s.len() {
        // only line ends can start the end marker
        if s.as_bytes()[i] == b'\n' || s.as_bytes()[i] == b'\r' {
            if let Ok((n, r)) = heredoc_end(s, i, &id, ind) {
                return Ok((unindent(&s[start..i], n), r));
            }
        }
        i += 1;
    }
    Err(No::Soft)
}

pub fn string(s: &str, p: usize) -> R<String> {
    match quoted(s, p, true) {
        Err(No::Soft) => heredoc(s, p),
        r => r,
    }
}

pub fn tuple(s: &str, p: usize) -> R<Vec<MExpr>> {
    let (_, mut q) = lit(s, p, "[")?;
    let mut v = vec![];
    q = ws(s, q);
    match expression(s, q) {
        Err(No::Fatal) => return Err(No::Fatal),
        Err(No::Soft) => {}
        Ok((e, r)) => {
            v.push(e);
            q = r;
            loop {
                let a = ws(s, q);
                let b = match lit(s, a, ",") {
                    Ok((_, b)) => ws(s, b),
                    Err(_) => break,
                };
                match expression(s, b) {
                    Ok((e, r)) => {
                        v.push(e);
                        q = r;
                    }
                    Err(No::Fatal) => return Err(No::Fatal),
                    Err(No::Soft) => break,
                }
            }
        }
    }
    q = ws(s, q);
    if let Ok((_, r)) = lit(s, q, ",") {
        q = ws(s, r);
    }
    let (_, q) = lit(s, q, "]")?;
    Ok((v, q))
}

/// A key that is not an identifier is an expression kept as its source text.
pub fn object_key(s: &str, p: usize) -> R<MKey> {
    if let Ok((i, q)) = identifier(s, p) {
        return Ok((MKey::Ident(i), q));
    }
    let (_, q) = expression(s, p)?;
    Ok((MKey::Expr(s[p..q].to_string()), q))
}

pub fn object_element(s: &str, p: usize) -> R<(MKey, MExpr)> {
    let (k, q) = object_key(s, iw(s, p))?;
    let (_, q) = lit(s, iw(s, q), "=")?;
    let (e, q) = expression(s, iw(s, q))?;
    Ok(((k, e), iw(s, q)))
}

pub fn object_separator(s: &str, p: usize) -> R<()> {
    if let Ok((_, q)) = lit(s, p, ",") {
        return Ok(((), q));
    }
    if let Ok((_, q)) = newline(s, p) {
        return Ok(((), q));
    }
    lit(s, p, "}").map(|_| ((), p))
}

pub fn object_body(s: &str, p: usize) -> R<Vec<(MKey, MExpr)>> {
    let mut v = vec![];
    let mut q = p;
    loop {
        let (kv, r) = match object_element(s, ws(s, q)) {
            Ok(x) => x,
            Err(No::Soft) => break,
            Err(e) => return Err(e),
        };
        let r = match object_separator(s, r) {
            Ok((_, r)) => r,
            Err(No::Soft) => break,
            Err(e) => return Err(e),
        };
        v.push(kv);
        q = r;
    }
    Ok((v, ws(s, q)))
}

pub fn object(s: &str, p: usize) -> R<Vec<(MKey, MExpr)>> {
    let (_, q) = lit(s, ws(s, p), "{")?;
    let (v, q) = object_body(s, ws(s, q))?;
    let (_, q) = lit(s, ws(s, q), "}")?;
    Ok((v, q))
}

pub fn bracket(s: &str, p: usize) -> R<MExpr> {
    let (_, q) = lit(s, ws(s, p), "(")?;
    let (e, q) = expression(s, ws(s, q))?;
    let (_, q) = lit(s, ws(s, q), ")")?;
    Ok((e, q))
}

pub fn expression(s: &str, p: usize) -> R<MExpr> {
    macro_rules! alt {
        ($r:expr, $f:expr) => {
            match $r {
                Ok((v, q)) => return Ok(($f(v), q)),
                Err(No::Fatal) => return Err(No::Fatal),
                Err(No::Soft) => {}
            }
        };
    }
    alt!(null(s, p), |_| MExpr::Null);
    alt!(number(s, p), MExpr::Num);
    alt!(boolean(s, p), MExpr::Bool);
    alt!(string(s, p), MExpr::Str);
    alt!(tuple(s, p), MExpr::Tuple);
    alt!(object(s, p), MExpr::Object);
    bracket(s, p)
}

pub fn attribute(s: &str, p: usize) -> R<(String, MExpr)> {
    let (k, q) = identifier(s, iw(s, p))?;
    let (_, q) = lit(s, iw(s, q), "=")?;
    let (e, q) = expression(s, iw(s, q))?;
    Ok(((k, e), iw(s, q)))
}

pub fn block_label(s: &str, p: usize) -> R<MLabel> {
    if let Ok((i, q)) = identifier(s, p) {
        return Ok((MLabel::Ident(i), q));
    }
    quoted(s, p, false).map(|(l, q)| (MLabel::Lit(l), q))
}

pub fn block_labels(s: &str, p: usize) -> R<Vec<MLabel>> {
    let mut v = vec![];
    let mut q = p;
    loop {
        match block_label(s, iw(s, q)) {
            Ok((l, r)) => {
                v.push(l);
                q = iw(s, r);
            }
            Err(No::Soft) => return Ok((v, q)),
            Err(e) => return Err(e),
        }
    }
}

fn block_head(s: &str, p: usize) -> R<(String, Vec<MLabel>)> {
    let (t, q) = identifier(s, iw(s, p))?;
    let (l, q) = block_labels(s, iw(s, q))?;
    let (_, q) = lit(s, iw(s, q), "{")?;
    Ok(((t, l), q))
}

pub fn one_line_block(s: &str, p: usize) -> R<MBlock> {
    let ((ty, labels), q) = block_head(s, p)?;
    let q = iw(s, q);
    let (body, q) = match attribute(s, q) {
        Ok(((k, v), r)) => (vec![MElem::Attr(k, v)], r),
        Err(No::Soft) => (vec![], q),
        Err(e) => return Err(e),
    };
    let (_, q) = lit(s, iw(s, q), "}")?;
    Ok((MBlock { ty, labels, body }, iw(s, q)))
}

pub fn block(s: &str, p: usize) -> R<MBlock> {
    let ((ty, labels), q) = block_head(s, p)?;
    let (_, q) = newline(s, iw(s, q))?;
    let (body, q) = body(s, iw(s, q))?;
    let (_, q) = lit(s, iw(s, q), "}")?;
    Ok((MBlock { ty, labels, body }, iw(s, q)))
}

pub fn body_element(s: &str, p: usize) -> R<MElem> {
    match attribute(s, p) {
        Ok(((k, v), q)) => return Ok((MElem::Attr(k, v), q)),
        Err(No::Fatal) => return Err(No::Fatal),
        _ => {}
    }
    match one_line_block(s, p) {
        Ok((b, q)) => return Ok((MElem::Block(b), q)),
        Err(No::Fatal) => return Err(No::Fatal),
        _ => {}
    }
    block(s, p).map(|(b, q)| (MElem::Block(b), q))
}

pub fn body(s: &str, p: usize) -> R<MBody> {
    let mut v = vec![];
    let mut q = p;
    loop {
        let (e, r) = match body_element(s, ws(s, q)) {
            Ok(x) => x,
            Err(No::Soft) => break,
            Err(e) => return Err(e),
        };
        let r = match newline(s, r) {
            Ok((_, r)) => r,
            Err(_) if r == s.len() => r,
            Err(_) => break,
        };
        v.push(e);
        q = r;
    }
    Ok((v, ws(s, q)))
}

pub fn document(s: &str) -> Option<MBody> {
    match body(s, 0) {
        Ok((b, q)) if q == s.len() => Some(b),
        _ => None,
    }
}

/// a stand-alone expression must be consumed in full; otherwise Err(Some(rest)) or Err(None)
pub fn expression_text(s: &str) -> Result<MExpr, Option<String>> {
    match expression(s, 0) {
        Ok((e, q)) if q == s.len() => Ok(e),
        Ok((_, q)) => Err(Some(s[q..].to_string())),
        Err(_) => Err(None),
    }
}

/// Does the text use an indented heredoc whose closing line is indented with tabs? The crate's
/// documentation declares tabs there to give "bad output"; such values are not compared.
pub fn tab_indented_heredoc(s: &str) -> bool {
    s.contains("<<-") && s.contains('\t')
}
