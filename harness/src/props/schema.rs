//! C19 C20 C21: reading into types made up at random.
//!
//! A schema is a Rust type as a deserializer meets it: which hint it gives, which visits it takes, what it asks of
//! sequences and maps. It is interpreted against the library by `Seed`, and against the abstract document by `of_expr`
//! and `of_body`.
use super::numbers::{canon, is_int, within};
use super::serde_props::*;
use super::syntax::disp;
use super::*;
use crate::gen::{self, *};
use crate::model::*;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::serde::de::{Compat, Deserializer as BodyDeserializer};
use ferrous_chloride::{parse_str, AsOwned};
use serde::de::{Deserialize, DeserializeSeed, Deserializer, Error, IgnoredAny, MapAccess, SeqAccess, Visitor};

#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
    F32,
    F64,
    Bool,
    Char,
    Str,
    Unit,
    Any,
    Ignored,
}
use P::*;
const PRIMS: &[P] = &[I8, I16, I32, I64, I128, U8, U16, U32, U64, U128, F32, F64, Bool, Char, Str, Str, Unit, Any, Ignored];

#[derive(Clone, Debug)]
enum Sch {
    Prim(P),
    Opt(Box<Sch>),
    New(Box<Sch>),
    Seq(Box<Sch>),
    /// reads a sequence, but stops after so many elements
    Take(usize, Box<Sch>),
    Tuple(Vec<Sch>),
    TupleStruct(Vec<Sch>),
    Map(Box<Sch>),
    /// fields; whether a further one is refused
    Struct(Vec<(String, Sch)>, bool),
}

#[derive(Clone, Debug, PartialEq)]
enum R {
    None,
    Some(Box<R>),
    Int(String),
    /// bits; the two zeroes are one
    F64(u64),
    F32(u32),
    Bool(bool),
    Char(char),
    Str(String),
    Unit,
    Any(Dyn),
    Ignored,
    Seq(Vec<R>),
    /// by key
    Map(Vec<(String, R)>),
    Struct(Vec<R>),
}

fn f64_of(f: f64) -> R {
    R::F64(if f == 0.0 { 0 } else { f.to_bits() })
}

fn f32_of(f: f32) -> R {
    R::F32(if f == 0.0 { 0 } else { f.to_bits() })
}

/// the order of entries is checked elsewhere
fn sorted(d: Dyn) -> Dyn {
    match d {
        Dyn::Seq(v) => Dyn::Seq(v.into_iter().map(sorted).collect()),
        Dyn::Map(v) => {
            let mut v: Vec<_> = v.into_iter().map(|(k, x)| (k, sorted(x))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            Dyn::Map(v)
        }
        d => d,
    }
}

fn any_of(d: Dyn) -> R {
    R::Any(sorted(norm(d)))
}

// ------------------------------------------------------------------ against the library

#[derive(Clone, Copy)]
struct Seed<'a>(&'a Sch);

impl<'a, 'de> DeserializeSeed<'de> for Seed<'a> {
    type Value = R;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<R, D::Error> {
        macro_rules! int {
            ($t:ident) => {
                $t::deserialize(d).map(|v| R::Int(v.to_string()))
            };
        }
        match self.0 {
            Sch::Prim(p) => match p {
                I8 => int!(i8),
                I16 => int!(i16),
                I32 => int!(i32),
                I64 => int!(i64),
                I128 => int!(i128),
                U8 => int!(u8),
                U16 => int!(u16),
                U32 => int!(u32),
                U64 => int!(u64),
                U128 => int!(u128),
                F32 => f32::deserialize(d).map(f32_of),
                F64 => f64::deserialize(d).map(f64_of),
                Bool => bool::deserialize(d).map(R::Bool),
                Char => char::deserialize(d).map(R::Char),
                Str => String::deserialize(d).map(R::Str),
                Unit => <()>::deserialize(d).map(|_| R::Unit),
                Any => Dyn::deserialize(d).map(any_of),
                Ignored => IgnoredAny::deserialize(d).map(|_| R::Ignored),
            },
            Sch::Opt(_) => d.deserialize_option(V(self.0)),
            Sch::New(_) => d.deserialize_newtype_struct("New", V(self.0)),
            Sch::Seq(_) | Sch::Take(..) => d.deserialize_seq(V(self.0)),
            Sch::Tuple(v) => d.deserialize_tuple(v.len(), V(self.0)),
            Sch::TupleStruct(v) => d.deserialize_tuple_struct("Several", v.len(), V(self.0)),
            Sch::Map(_) => d.deserialize_map(V(self.0)),
            Sch::Struct(..) => d.deserialize_struct("Fields", &["a", "b", "c", "d"], V(self.0)),
        }
    }
}

struct V<'a>(&'a Sch);

impl<'a, 'de> Visitor<'de> for V<'a> {
    type Value = R;

    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }

    fn visit_none<E: Error>(self) -> Result<R, E> {
        match self.0 {
            Sch::Opt(_) => Ok(R::None),
            _ => Err(E::custom("none")),
        }
    }

    fn visit_unit<E: Error>(self) -> Result<R, E> {
        match self.0 {
            Sch::Opt(_) => Ok(R::None),
            _ => Err(E::custom("unit")),
        }
    }

    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<R, D::Error> {
        match self.0 {
            Sch::Opt(x) => Seed(x).deserialize(d).map(|r| R::Some(Box::new(r))),
            _ => Err(D::Error::custom("some")),
        }
    }

    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<R, D::Error> {
        match self.0 {
            Sch::New(x) => Seed(x).deserialize(d),
            _ => Err(D::Error::custom("newtype")),
        }
    }

    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<R, A::Error> {
        let mut out = vec![];
        match self.0 {
            Sch::Seq(x) => {
                while let Some(r) = a.next_element_seed(Seed(x))? {
                    out.push(r);
                }
            }
            Sch::Take(n, x) => {
                while out.len() < *n {
                    match a.next_element_seed(Seed(x))? {
                        Some(r) => out.push(r),
                        None => break,
                    }
                }
            }
            Sch::Tuple(v) | Sch::TupleStruct(v) => {
                for (i, x) in v.iter().enumerate() {
                    match a.next_element_seed(Seed(x))? {
                        Some(r) => out.push(r),
                        None => return Err(A::Error::invalid_length(i, &self)),
                    }
                }
            }
            _ => return Err(A::Error::custom("sequence")),
        }
        Ok(R::Seq(out))
    }

    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<R, A::Error> {
        match self.0 {
            Sch::Map(x) => {
                let mut out = vec![];
                while let Some(k) = a.next_key::<String>()? {
                    out.push((k, a.next_value_seed(Seed(x))?));
                }
                out.sort_by(|a, b| a.0.cmp(&b.0));
                Ok(R::Map(out))
            }
            Sch::Struct(fields, deny) => {
                let mut out: Vec<Option<R>> = vec![None; fields.len()];
                while let Some(k) = a.next_key::<String>()? {
                    match fields.iter().position(|f| f.0 == k) {
                        Some(i) => {
                            let r = a.next_value_seed(Seed(&fields[i].1))?;
                            if out[i].is_some() {
                                return Err(A::Error::custom("TWICE"));
                            }
                            out[i] = Some(r);
                        }
                        None if *deny => return Err(A::Error::custom("unknown field")),
                        None => {
                            a.next_value::<IgnoredAny>()?;
                        }
                    }
                }
                let mut all = vec![];
                for (r, (_, x)) in out.into_iter().zip(fields) {
                    match (r, x) {
                        (Some(r), _) => all.push(r),
                        (None, Sch::Opt(_)) => all.push(R::None),
                        _ => return Err(A::Error::custom("missing field")),
                    }
                }
                Ok(R::Struct(all))
            }
            _ => Err(A::Error::custom("map")),
        }
    }
}

// ------------------------------------------------------------------ against the document

enum W {
    Is(R),
    /// this, or an error
    May(R),
    Refused,
    Free,
}

impl W {
    fn map(self, f: impl FnOnce(R) -> R) -> W {
        match self {
            W::Is(r) => W::Is(f(r)),
            W::May(r) => W::May(f(r)),
            w => w,
        }
    }
    fn may(self) -> W {
        match self {
            W::Is(r) => W::May(r),
            w => w,
        }
    }
}

/// one refusal refuses the whole
fn all(v: Vec<W>) -> Result<(Vec<R>, bool), W> {
    if v.iter().any(|w| matches!(w, W::Refused)) {
        return Err(W::Refused);
    }
    let mut may = false;
    let mut out = vec![];
    for w in v {
        match w {
            W::Is(r) => out.push(r),
            W::May(r) => {
                may = true;
                out.push(r);
            }
            W::Free => return Err(W::Free),
            W::Refused => unreachable!(),
        }
    }
    Ok((out, may))
}

fn gather(v: Vec<W>, f: impl FnOnce(Vec<R>) -> R) -> W {
    match all(v) {
        Ok((r, false)) => W::Is(f(r)),
        Ok((r, true)) => W::May(f(r)),
        Err(w) => w,
    }
}

fn of_want(w: Want) -> W {
    match w {
        Want::Is(d) => W::Is(any_of(d)),
        Want::Refused => W::Refused,
        Want::Free => W::Free,
    }
}

fn of_number(p: P, t: &str) -> W {
    let c = canon(t);
    let fits64 = is_int(t) && within(&c, &i64::MIN.to_string(), &u64::MAX.to_string());
    macro_rules! int {
        ($t:ident) => {
            if !is_int(t) || !within(&c, &$t::MIN.to_string(), &$t::MAX.to_string()) {
                W::Refused
            } else if fits64 {
                W::Is(R::Int(c))
            } else {
                W::Free
            }
        };
    }
    match p {
        I8 => int!(i8),
        I16 => int!(i16),
        I32 => int!(i32),
        I64 => int!(i64),
        I128 => int!(i128),
        U8 => int!(u8),
        U16 => int!(u16),
        U32 => int!(u32),
        U64 => int!(u64),
        U128 => int!(u128),
        F64 | F32 if is_int(t) && !fits64 => W::Free,
        F64 => W::Is(f64_of(t.parse().unwrap())),
        F32 => {
            let (a, b) = (t.parse::<f32>().unwrap(), t.parse::<f64>().unwrap() as f32);
            if a == b {
                W::Is(f32_of(a))
            } else {
                W::Free
            }
        }
        _ => W::Refused,
    }
}

fn of_expr(x: &Sch, e: &MExpr) -> W {
    match (x, e) {
        (Sch::Prim(Ignored), _) => W::Is(R::Ignored),
        (Sch::Prim(Any), e) => of_want(meaning(e)),
        (Sch::Prim(p), MExpr::Num(t)) => of_number(*p, t),
        (Sch::Prim(Bool), MExpr::Bool(b)) => W::Is(R::Bool(*b)),
        (Sch::Prim(Unit), MExpr::Null) => W::Is(R::Unit),
        (Sch::Prim(Str), MExpr::Str(t)) => W::Is(R::Str(t.clone())),
        (Sch::Prim(Char), MExpr::Str(t)) => {
            let mut i = t.chars();
            match (i.next(), i.next()) {
                (Some(c), None) => W::Is(R::Char(c)),
                _ => W::Refused,
            }
        }
        (Sch::Prim(_), _) => W::Refused,
        (Sch::Opt(_), MExpr::Null) => W::Is(R::None),
        (Sch::Opt(x), e) => of_expr(x, e).map(|r| R::Some(Box::new(r))),
        (Sch::New(x), e) => of_expr(x, e),
        (Sch::Seq(x), MExpr::Tuple(v)) => gather(v.iter().map(|e| of_expr(x, e)).collect(), R::Seq),
        // more than it takes must not be dropped
        (Sch::Take(n, _), MExpr::Tuple(v)) if v.len() > *n => W::Refused,
        (Sch::Take(_, x), MExpr::Tuple(v)) => gather(v.iter().map(|e| of_expr(x, e)).collect(), R::Seq),
        (Sch::Tuple(t), MExpr::Tuple(v)) | (Sch::TupleStruct(t), MExpr::Tuple(v)) if t.len() == v.len() => gather(t.iter().zip(v).map(|(x, e)| of_expr(x, e)).collect(), R::Seq),
        (Sch::Map(_), MExpr::Object(v)) | (Sch::Struct(..), MExpr::Object(v)) => {
            let keys: Vec<Option<String>> = v.iter().map(|(k, _)| key_text(k)).collect();
            if repeated(&keys) {
                return W::Refused;
            }
            if keys.iter().any(|k| k.is_none()) {
                return W::Free;
            }
            of_entries(x, keys.into_iter().flatten().zip(v).map(|(k, (_, e))| (k, Content::Expr(e))).collect())
        }
        _ => W::Refused,
    }
}

fn repeated(keys: &[Option<String>]) -> bool {
    let mut seen = std::collections::HashSet::new();
    keys.iter().flatten().any(|k| !seen.insert(k))
}

enum Content<'a> {
    Expr(&'a MExpr),
    /// blocks of one type
    Group(Vec<&'a MBlock>),
}

fn of_content(x: &Sch, c: &Content) -> W {
    match c {
        Content::Expr(e) => of_expr(x, e),
        Content::Group(v) => of_group(x, v),
    }
}

/// a map or struct of what has distinct names
fn of_entries(x: &Sch, v: Vec<(String, Content)>) -> W {
    match x {
        Sch::Map(x) => {
            let mut v = v;
            v.sort_by(|a, b| a.0.cmp(&b.0));
            let keys: Vec<String> = v.iter().map(|e| e.0.clone()).collect();
            gather(v.iter().map(|(_, c)| of_content(x, c)).collect(), |r| R::Map(keys.into_iter().zip(r).collect()))
        }
        Sch::Struct(fields, deny) => {
            if *deny && v.iter().any(|(k, _)| fields.iter().all(|f| f.0 != *k)) {
                return W::Refused;
            }
            let ws = fields
                .iter()
                .map(|(k, x)| match v.iter().find(|(j, _)| j == k) {
                    Some((_, c)) => of_content(x, c),
                    None if matches!(x, Sch::Opt(_)) => W::Is(R::None),
                    None => W::Refused,
                })
                .collect();
            // what is ignored may be refused for a repeated name inside
            let strange = v.iter().any(|(k, c)| fields.iter().all(|f| f.0 != *k) && repeats(c));
            let w = gather(ws, R::Struct);
            if strange {
                w.may()
            } else {
                w
            }
        }
        _ => W::Refused,
    }
}

fn repeats(c: &Content) -> bool {
    match c {
        Content::Expr(e) => expr_repeats(e),
        Content::Group(v) => v.iter().any(|b| body_repeats(&b.body)),
    }
}

fn expr_repeats(e: &MExpr) -> bool {
    match e {
        MExpr::Tuple(v) => v.iter().any(expr_repeats),
        MExpr::Object(v) => repeated(&v.iter().map(|(k, _)| key_text(k)).collect::<Vec<_>>()) || v.iter().any(|(_, e)| expr_repeats(e)),
        _ => false,
    }
}

fn body_repeats(b: &MBody) -> bool {
    contents(b).is_none()
        || b.iter().any(|e| match e {
            MElem::Attr(_, e) => expr_repeats(e),
            MElem::Block(b) => body_repeats(&b.body),
        })
}

/// by name; none if a name is repeated
fn contents(b: &MBody) -> Option<Vec<(String, Content<'_>)>> {
    let mut out: Vec<(String, Content)> = vec![];
    for e in b {
        let (name, known) = match e {
            MElem::Attr(k, _) => (k, out.iter_mut().find(|x| x.0 == *k)),
            MElem::Block(x) => (&x.ty, out.iter_mut().find(|y| y.0 == x.ty)),
        };
        match (e, known) {
            (MElem::Attr(_, e), None) => out.push((name.clone(), Content::Expr(e))),
            (MElem::Block(x), None) => out.push((name.clone(), Content::Group(vec![x]))),
            (MElem::Block(x), Some((_, Content::Group(v)))) => v.push(x),
            _ => return None,
        }
    }
    Some(out)
}

fn of_group(x: &Sch, v: &[&MBlock]) -> W {
    if matches!(x, Sch::Prim(Ignored)) {
        return if v.iter().any(|b| body_repeats(&b.body)) { W::May(R::Ignored) } else { W::Is(R::Ignored) };
    }
    let labelled = v.iter().any(|b| !b.labels.is_empty());
    match x {
        // perhaps it is ignored in the end
        Sch::Opt(x) if labelled => return of_group(x, v).map(|r| R::Some(Box::new(r))).may(),
        Sch::New(x) if labelled => return of_group(x, v).may(),
        _ if labelled => return W::Refused,
        _ => {}
    }
    let seq = |t: Vec<&Sch>| gather(t.into_iter().zip(v).map(|(x, b)| of_body(x, &b.body)).collect(), R::Seq);
    match x {
        Sch::Prim(Any) if v.len() == 1 => of_want(body_meaning(&v[0].body)),
        Sch::Prim(Any) => gather(v.iter().map(|b| of_want(body_meaning(&b.body))).collect(), |r| {
            R::Any(Dyn::Seq(
                r.into_iter()
                    .map(|r| match r {
                        R::Any(d) => d,
                        _ => unreachable!(),
                    })
                    .collect(),
            ))
        }),
        Sch::Prim(_) => W::Refused,
        Sch::Opt(x) => of_group(x, v).map(|r| R::Some(Box::new(r))),
        // a single name around blocks, or a tuple of one: may be read, if it is read right
        Sch::New(x) => of_group(x, v).may(),
        Sch::Seq(x) => seq(vec![&**x; v.len()]),
        Sch::Take(n, _) if v.len() > *n => W::Refused,
        Sch::Take(_, x) => seq(vec![&**x; v.len()]),
        Sch::Tuple(t) | Sch::TupleStruct(t) if t.len() == v.len() => {
            let w = seq(t.iter().collect());
            if v.len() == 1 {
                w.may()
            } else {
                w
            }
        }
        Sch::Map(_) | Sch::Struct(..) if v.len() == 1 => of_body(x, &v[0].body),
        _ => W::Refused,
    }
}

fn of_body(x: &Sch, b: &MBody) -> W {
    match x {
        Sch::Prim(Ignored) => {
            if body_repeats(b) {
                W::May(R::Ignored)
            } else {
                W::Is(R::Ignored)
            }
        }
        Sch::Prim(Any) => match contents(b) {
            None => W::Refused,
            Some(v) => {
                // labelled blocks are read here
                if v.iter().any(|(_, c)| matches!(c, Content::Group(v) if v.iter().any(|b| !b.labels.is_empty()))) {
                    return W::Refused;
                }
                of_want(body_meaning(b))
            }
        },
        Sch::Opt(x) => of_body(x, b).map(|r| R::Some(Box::new(r))).may(),
        Sch::New(x) => of_body(x, b).may(),
        Sch::Map(_) | Sch::Struct(..) => match contents(b) {
            None => W::Refused,
            Some(v) => of_entries(x, v),
        },
        _ => W::Refused,
    }
}

// ------------------------------------------------------------------ generation

const FIELDS: &[&str] = &["a", "b", "c", "d", "name", "é", "x-y", "_z"];

fn fields(s: &mut Src, n: usize, f: &mut dyn FnMut(&mut Src) -> Sch) -> Vec<(String, Sch)> {
    let mut names: Vec<String> = FIELDS.iter().map(|t| t.to_string()).collect();
    if let Some(w) = s.word() {
        if !names.iter().any(|n| n == w) && matches!(crate::refp::identifier(w, 0), Ok((_, n)) if n == w.len()) {
            names.push(w.to_string());
        }
    }
    (0..n.min(names.len()))
        .map(|_| {
            let i = s.below(names.len());
            (names.remove(i), f(s))
        })
        .collect()
}

/// a type an expression may have
fn schema(s: &mut Src, depth: usize) -> Sch {
    if depth == 0 || s.chance(1, 3) {
        return Sch::Prim(*s.pick(PRIMS));
    }
    match s.below(10) {
        0 | 1 => Sch::Opt(Box::new(schema(s, depth - 1))),
        2 => Sch::New(Box::new(schema(s, depth - 1))),
        3 | 4 => Sch::Seq(Box::new(schema(s, depth - 1))),
        5 => Sch::Take(s.below(4), Box::new(schema(s, depth - 1))),
        6 => {
            let v = (0..s.range(1, 4)).map(|_| schema(s, depth - 1)).collect();
            if s.bool() {
                Sch::Tuple(v)
            } else {
                Sch::TupleStruct(v)
            }
        }
        7 => Sch::Map(Box::new(schema(s, depth - 1))),
        _ => {
            let n = s.range(0, 4);
            let deny = s.chance(1, 4);
            Sch::Struct(fields(s, n, &mut |s| schema(s, depth - 1)), deny)
        }
    }
}

/// a type a body may have
fn body_schema(s: &mut Src, depth: usize) -> Sch {
    match s.below(8) {
        0 => Sch::Prim(Any),
        1 => Sch::Map(Box::new(field_schema(s, depth))),
        _ => {
            let n = s.range(1, 5);
            let deny = s.chance(1, 4);
            Sch::Struct(fields(s, n, &mut |s| field_schema(s, depth)), deny)
        }
    }
}

/// of an attribute or of the blocks of one type
fn field_schema(s: &mut Src, depth: usize) -> Sch {
    if depth == 0 || s.chance(2, 5) {
        return schema(s, depth.min(2));
    }
    let b = body_schema(s, depth - 1);
    match s.below(8) {
        0 => b,
        1 => Sch::Opt(Box::new(b)),
        2 => Sch::Take(s.below(4), Box::new(b)),
        3 => Sch::Tuple((0..s.range(1, 3)).map(|_| body_schema(s, depth - 1)).collect()),
        4 => Sch::Opt(Box::new(Sch::Seq(Box::new(b)))),
        5 => Sch::New(Box::new(b)),
        _ => Sch::Seq(Box::new(b)),
    }
}

fn number(s: &mut Src, p: P) -> String {
    macro_rules! near {
        ($t:ident) => {
            match s.below(6) {
                0 => $t::MIN.to_string(),
                1 => $t::MAX.to_string(),
                2 => ($t::MAX as i128 - 1).to_string(),
                3 => s.below(100).to_string(),
                4 => (s.u64() as $t).to_string(),
                _ => format!("{}0{}", s.pick(&["", "+"]), s.below(100)),
            }
        };
    }
    match p {
        I8 => near!(i8),
        I16 => near!(i16),
        I32 => near!(i32),
        I64 | I128 => near!(i64),
        U8 => near!(u8),
        U16 => near!(u16),
        U32 => near!(u32),
        U64 | U128 => near!(u64),
        _ => match s.below(3) {
            0 => near!(i32),
            1 => format!("{}.{}", s.below(1000), s.pick(&["0", "5", "25", "125"])),
            _ => gen::num_text(s),
        },
    }
}

fn stray(s: &mut Src) -> MExpr {
    let sh = Shape { depth: 2, width: 3, obj_expr_keys: true, old: false };
    let d = s.below(3);
    gen::expr(s, &sh, d)
}

/// an expression of that type, mostly
fn expr_for(s: &mut Src, x: &Sch, wrong: usize) -> MExpr {
    if wrong > 0 && s.chance(1, wrong) {
        return stray(s);
    }
    match x {
        Sch::Prim(Bool) => MExpr::Bool(s.bool()),
        Sch::Prim(Unit) => MExpr::Null,
        Sch::Prim(Str) => MExpr::Str(gen::text(s, 5)),
        Sch::Prim(Char) => MExpr::Str(gen::ch(s).to_string()),
        Sch::Prim(Any) | Sch::Prim(Ignored) => stray(s),
        Sch::Prim(p) => MExpr::Num(number(s, *p)),
        Sch::Opt(x) => {
            if s.chance(1, 3) {
                MExpr::Null
            } else {
                expr_for(s, x, wrong)
            }
        }
        Sch::New(x) => expr_for(s, x, wrong),
        Sch::Seq(x) => MExpr::Tuple((0..s.len(4)).map(|_| expr_for(s, x, wrong)).collect()),
        Sch::Take(n, x) => {
            let k = if wrong > 0 && s.chance(1, wrong) { n + 1 + s.below(2) } else { s.below(n + 1) };
            MExpr::Tuple((0..k).map(|_| expr_for(s, x, wrong)).collect())
        }
        Sch::Tuple(t) | Sch::TupleStruct(t) => {
            let mut v: Vec<MExpr> = t.iter().map(|x| expr_for(s, x, wrong)).collect();
            if wrong > 0 && s.chance(1, wrong) {
                if s.bool() {
                    v.pop();
                } else {
                    v.push(MExpr::Null);
                }
            }
            MExpr::Tuple(v)
        }
        Sch::Map(x) => MExpr::Object(
            (0..s.len(3))
                .map(|i| {
                    let k = if wrong > 0 && s.chance(1, wrong) { gen::small_name(s) } else { format!("{}{}", gen::text(s, 3), i) };
                    (okeyed(s, &k), expr_for(s, x, wrong))
                })
                .collect(),
        ),
        Sch::Struct(f, deny) => {
            let mut v: Vec<(MKey, MExpr)> = vec![];
            for (k, x) in f {
                if (matches!(x, Sch::Opt(_)) && s.chance(1, 4)) || (wrong > 0 && s.chance(1, 2 * wrong)) {
                    continue;
                }
                let at = s.below(v.len() + 1);
                let e = (okeyed(s, k), expr_for(s, x, wrong));
                v.insert(at, e);
            }
            if s.chance(1, if *deny { 12 } else { 3 }) {
                let at = s.below(v.len() + 1);
                let e = (okeyed(s, "more"), stray(s));
                v.insert(at, e);
            }
            if wrong > 0 && !v.is_empty() && s.chance(1, 2 * wrong) {
                let again = v[s.below(v.len())].clone();
                v.insert(s.below(v.len() + 1), again);
            }
            MExpr::Object(v)
        }
    }
}

/// the blocks of one type, or nothing if the type is not one of blocks
fn blocks_for(s: &mut Src, x: &Sch, wrong: usize) -> Option<Vec<MBody>> {
    Some(match x {
        Sch::Opt(x) | Sch::New(x) => return blocks_for(s, x, wrong),
        Sch::Seq(x) => {
            let n = 1 + s.len(3);
            (0..n).map(|_| body_for(s, x, wrong)).collect::<Option<_>>()?
        }
        Sch::Take(n, x) => {
            let n = if wrong > 0 && s.chance(1, wrong) { n + 1 } else { (*n).max(1) };
            (0..n).map(|_| body_for(s, x, wrong)).collect::<Option<_>>()?
        }
        Sch::Tuple(t) | Sch::TupleStruct(t) => {
            let mut v = t.iter().map(|x| body_for(s, x, wrong)).collect::<Option<Vec<_>>>()?;
            if wrong > 0 && s.chance(1, wrong) {
                v.push(vec![]);
            }
            v
        }
        Sch::Prim(Any) | Sch::Prim(Ignored) => {
            let n = s.range(1, 3);
            (0..n).map(|_| plain_body(s, 1, true)).collect()
        }
        x => {
            let n = if wrong > 0 && s.chance(1, wrong) { 2 } else { 1 };
            (0..n).map(|_| body_for(s, x, wrong)).collect::<Option<_>>()?
        }
    })
}

fn body_for(s: &mut Src, x: &Sch, wrong: usize) -> Option<MBody> {
    let mut groups: Vec<Vec<MElem>> = vec![];
    let some = |s: &mut Src, k: &str, x: &Sch, groups: &mut Vec<Vec<MElem>>| {
        let blocks = if s.chance(2, 3) { blocks_for(s, x, wrong) } else { None };
        match blocks {
            Some(v) => {
                let labelled = wrong > 0 && s.chance(1, 2 * wrong);
                groups.push(
                    v.into_iter()
                        .map(|body| {
                            let labels = if labelled && s.bool() { vec![gen::label(s)] } else { vec![] };
                            MElem::Block(MBlock { ty: k.to_string(), labels, body })
                        })
                        .collect(),
                );
            }
            None => groups.push(vec![MElem::Attr(k.to_string(), expr_for(s, x, wrong))]),
        }
    };
    match x {
        Sch::Prim(Any) | Sch::Prim(Ignored) => return Some(plain_body(s, 1, true)),
        Sch::Opt(x) | Sch::New(x) => return body_for(s, x, wrong),
        Sch::Map(x) => {
            for i in 0..s.len(4) {
                some(s, &format!("k{}", i), x, &mut groups);
            }
        }
        Sch::Struct(f, deny) => {
            for (k, x) in f {
                if (matches!(x, Sch::Opt(_)) && s.chance(1, 4)) || (wrong > 0 && s.chance(1, 2 * wrong)) {
                    continue;
                }
                some(s, k, x, &mut groups);
            }
            if s.chance(1, if *deny { 12 } else { 3 }) {
                let n = s.range(1, 2);
                groups.push(unknown(s, n, "u"));
            }
            if wrong > 0 && s.chance(1, 2 * wrong) {
                if let Some((k, _)) = f.first() {
                    let e = stray(s);
                    groups.push(vec![MElem::Attr(k.clone(), e)]);
                }
            }
        }
        _ => return None,
    }
    Some(weave(s, groups))
}

// ------------------------------------------------------------------ checks

fn judge(c: &mut Ctx, x: &Sch, got: Result<R, Compat>, want: W) -> CaseResult {
    if let Err(e) = &got {
        let t = e.to_string();
        if t.contains("HINT:") || t.contains("TWICE") {
            return Err(format!("{}: {:?}", t, x));
        }
    }
    match (got, want) {
        (Ok(g), W::Is(w)) => {
            c.label("read");
            same("value", &g, &w)
        }
        (Ok(g), W::May(w)) => {
            c.label("may be read");
            same("value", &g, &w)
        }
        (Err(_), W::May(_)) => Ok(()),
        (Ok(g), W::Refused) => Err(format!("{} was read as {}", clip(&format!("{:?}", x), 300), clip(&format!("{:?}", g), 300))),
        (Err(_), W::Refused) => {
            c.label("refused");
            Ok(())
        }
        (Err(e), W::Is(w)) => Err(format!("refused ({}) although {} reads {}", clip(&e.to_string(), 300), clip(&format!("{:?}", x), 300), clip(&format!("{:?}", w), 300))),
        (_, W::Free) => {
            c.label("free");
            Ok(())
        }
    }
}

fn aim(s: &mut Src) -> usize {
    // how often something is off: never, at times, often
    *s.pick(&[0, 0, 30, 8])
}

pub fn expressions(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(1, 4);
    let x = schema(s, d);
    let wrong = aim(s);
    let e = expr_for(s, &x, wrong);
    let t = text_of(s, &e);
    c.show = format!("{:?} from {}", x, t);
    c.nontrivial_if(!matches!(x, Sch::Prim(_)));
    let parsed = Expression::parse(&t).map_err(|e| disp(&e))?;
    let owned = parsed.as_owned();
    judge(c, &x, Seed(&x).deserialize(parsed), of_expr(&x, &e))?;
    judge(c, &x, Seed(&x).deserialize(owned), of_expr(&x, &e))
}

pub fn documents(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(0, 3);
    let x = body_schema(s, d);
    let wrong = aim(s);
    let b = body_for(s, &x, wrong).unwrap_or_default();
    let mut l = Lay::new(s);
    l.document(s, &b);
    let t = l.out;
    c.show = format!("{:?} from {}", x, t);
    c.nontrivial_if(b.len() >= 2);
    let direct = BodyDeserializer::from_str(&t).map_err(|e| e.to_string())?;
    judge(c, &x, Seed(&x).deserialize(direct), of_body(&x, &b))?;
    let parsed = parse_str(&t).map_err(|e| disp(&e))?;
    judge(c, &x, Seed(&x).deserialize(BodyDeserializer::new(parsed.as_owned())), of_body(&x, &b))
}

/// any text into any type: a value or an error
pub fn anything(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let d = s.range(0, 3);
    let x = body_schema(s, d);
    let y = schema(s, 3);
    let mut t = match s.below(4) {
        0 => {
            let (_, l) = gen::doc(s);
            l.out
        }
        1 => gen::soup(s),
        _ => {
            let b = body_for(s, &x, 4).unwrap_or_default();
            let mut l = Lay::new(s);
            l.document(s, &b);
            l.out
        }
    };
    if s.chance(1, 3) {
        gen::edit(s, &mut t, None);
    }
    c.show = format!("{:?} and {:?} from {}", x, y, t);
    let Ok(body) = parse_str(&t) else { return Ok(()) };
    c.nontrivial = true;
    let at = |e: Result<R, Compat>| {
        if let Err(e) = e {
            let _ = format!("{} {:?}", e, e);
        }
    };
    for x in [&x, &y] {
        at(Seed(x).deserialize(BodyDeserializer::new(body.clone())));
        for e in body.iter() {
            if e.is_attribute() {
                at(Seed(x).deserialize(e.clone().unwrap_attribute().1));
            }
        }
    }
    Ok(())
}
