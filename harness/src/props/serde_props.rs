//! C19 C20 C21: deserialization.
use super::numbers::{canon, f64_right, is_int, within};
use super::syntax::{any_text, disp};
use super::*;
use crate::ensure;
use crate::gen::{self, *};
use crate::model::*;
use crate::refp;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::serde::de::{Compat, Deserializer as BodyDeserializer};
use ferrous_chloride::serde::from_str;
use ferrous_chloride::{parse_str, AsOwned};
use serde::de::{Deserialize, Deserializer, IgnoredAny, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::Deserialize as De;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C19",
            vec![
                check("self-describing", 60_000, 1_500_000, "a random expression read through a visitor that accepts every kind, against the expression's meaning; non-trivial: at least 2 nodes", c19_dynamic),
                check("numbers", 60_000, 2_000_000, "number literals into all integer and float types, against exact arithmetic; all count", c19_numbers),
                check("typed", 80_000, 2_000_000, "random expressions into about 25 fixed target types: success exactly where the kinds match, with the right value; all count", c19_typed),
                check("key", 20_000, 400_000, "a key of a value tree (identifier or quoted, borrowed or owned) read as a string and through a self-describing visitor: exactly its text; non-trivial: a quoted key or a non-ASCII text", c19_key),
                check("schema", 60_000, 1_500_000, "a type made up at random (nested options, newtypes, sequences, tuples, maps, structs over all primitive types) and an expression that fits it, or nearly: read exactly, or refused where the type or the expression demands it; non-trivial: the type is not a primitive one", super::schema::expressions),
            ],
        ),
        prop(
            "C20",
            vec![
                check("typed", 30_000, 800_000, "random typed configuration -> interleaved document in a random layout -> from_str -> equal configuration; non-trivial: at least one block", c20_typed),
                check("dynamic", 60_000, 1_500_000, "random unlabelled document read through a self-describing visitor, against the document; non-trivial: at least 2 elements", c20_dynamic),
                check("group", 30_000, 800_000, "the bodies of one block type, put in a BlockBody by hand and read directly (self-describing, vector, option, ignored); non-trivial: no body or at least 2", c20_group),
                check("fixed", 40_000, 1_000_000, "block sequences into tuples, arrays, structs, newtypes and options: nothing dropped; non-trivial: at least 2 blocks", c20_fixed),
                check("labelled", 20_000, 500_000, "a block given labels somewhere in an otherwise readable document: an error for every type that reads that block; non-trivial: unlabelled blocks of its type present, or below the top level", c20_labelled),
                check("schema", 40_000, 1_000_000, "a type made up at random and a document that fits it, or nearly, with the fields as attributes or blocks: read exactly, or refused; non-trivial: at least 2 elements", super::schema::documents),
            ],
        ),
        prop(
            "C21",
            vec![
                check("total", 50_000, 1_200_000, "random, mutated and labelled documents into about 20 target types: value or error; non-trivial: the text parses", c21_total),
                check("expression", 50_000, 1_200_000, "random expressions into the same types; non-trivial: an aggregate", c21_expression),
                check("ignored", 60_000, 1_500_000, "a document whose type knows one attribute and one block, with arbitrary further content; non-trivial: further content present", c21_ignored),
                check("schema", 40_000, 1_000_000, "any text into types made up at random: a value or an error; non-trivial: the text parses", super::schema::anything),
            ],
        ),
    ]
}

// ------------------------------------------------------------------ a value of any kind

#[derive(Clone, Debug, PartialEq)]
pub enum Dyn {
    Unit,
    Bool(bool),
    I64(i64),
    U64(u64),
    /// bits
    F64(u64),
    Str(String),
    Seq(Vec<Dyn>),
    Map(Vec<(String, Dyn)>),
}

pub type Any = Dyn;

struct DynVisitor;
impl<'de> Visitor<'de> for DynVisitor {
    type Value = Dyn;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_unit<E>(self) -> Result<Dyn, E> {
        Ok(Dyn::Unit)
    }
    fn visit_none<E>(self) -> Result<Dyn, E> {
        Ok(Dyn::Unit)
    }
    fn visit_bool<E>(self, b: bool) -> Result<Dyn, E> {
        Ok(Dyn::Bool(b))
    }
    fn visit_i64<E>(self, b: i64) -> Result<Dyn, E> {
        Ok(Dyn::I64(b))
    }
    fn visit_u64<E>(self, b: u64) -> Result<Dyn, E> {
        Ok(Dyn::U64(b))
    }
    fn visit_f64<E>(self, b: f64) -> Result<Dyn, E> {
        Ok(Dyn::F64(b.to_bits()))
    }
    fn visit_str<E>(self, b: &str) -> Result<Dyn, E> {
        super::history::poke();
        Ok(Dyn::Str(b.to_string()))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Dyn, D::Error> {
        d.deserialize_any(self)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Dyn, D::Error> {
        d.deserialize_any(self)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dyn, A::Error> {
        let mut hints = vec![a.size_hint()];
        let mut v = vec![];
        while let Some(x) = a.next_element()? {
            super::history::poke();
            v.push(x);
            hints.push(a.size_hint());
        }
        hints_hold("sequence", v.len(), &hints)?;
        Ok(Dyn::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Dyn, A::Error> {
        let mut hints = vec![a.size_hint()];
        let mut between = vec![];
        let mut v = vec![];
        while let Some(k) = a.next_key::<String>()? {
            between.push(a.size_hint());
            super::history::poke();
            let x = a.next_value()?;
            v.push((k, x));
            hints.push(a.size_hint());
        }
        hints_hold("map", v.len(), &hints)?;
        // with a value pending, that entry may be counted or not
        for (i, h) in between.iter().enumerate() {
            match h {
                Some(h) if *h != v.len() - i && *h != v.len() - i - 1 => {
                    return Err(serde::de::Error::custom(format!("HINT: {} entries announced before the value of entry {} of {}", h, i, v.len())))
                }
                _ => {}
            }
        }
        Ok(Dyn::Map(v))
    }
}

/// a size hint is the number of remaining elements, wherever it is asked for
fn hints_hold<E: serde::de::Error>(what: &str, n: usize, hints: &[Option<usize>]) -> Result<(), E> {
    for (i, h) in hints.iter().enumerate() {
        match h {
            Some(h) if *h != n - i => return Err(E::custom(format!("HINT: {} announced {} elements after {} of {}", what, h, i, n))),
            _ => {}
        }
    }
    Ok(())
}

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
        d.deserialize_any(DynVisitor)
    }
}

/// integer literals: i64 and u64 with the same value are the same
pub fn norm(d: Dyn) -> Dyn {
    match d {
        Dyn::U64(u) if u <= i64::MAX as u64 => Dyn::I64(u as i64),
        Dyn::Seq(v) => Dyn::Seq(v.into_iter().map(norm).collect()),
        Dyn::Map(v) => Dyn::Map(v.into_iter().map(|(k, x)| (k, norm(x))).collect()),
        x => x,
    }
}

pub enum Want {
    Is(Dyn),
    /// must be refused
    Refused,
    /// no statement (integers beyond 64 bits in a self-describing reading, keys that are not strings)
    Free,
}

pub fn key_text(k: &MKey) -> Option<String> {
    match k {
        MKey::Ident(t) => Some(t.clone()),
        MKey::Expr(t) => match refp::expression_text(t) {
            Ok(MExpr::Str(x)) => Some(x),
            _ => None,
        },
    }
}

fn number_value(t: &str) -> Option<Dyn> {
    if is_int(t) {
        let c = canon(t);
        if within(&c, &i64::MIN.to_string(), &i64::MAX.to_string()) {
            Some(Dyn::I64(c.parse().unwrap()))
        } else if within(&c, "0", &u64::MAX.to_string()) {
            Some(Dyn::U64(c.parse().unwrap()))
        } else {
            None
        }
    } else {
        Some(Dyn::F64(t.parse::<f64>().unwrap().to_bits()))
    }
}

pub fn meaning(e: &MExpr) -> Want {
    match e {
        MExpr::Null => Want::Is(Dyn::Unit),
        MExpr::Bool(b) => Want::Is(Dyn::Bool(*b)),
        MExpr::Str(t) => Want::Is(Dyn::Str(t.clone())),
        MExpr::Num(t) => match number_value(t) {
            Some(d) => Want::Is(d),
            None => Want::Free,
        },
        MExpr::Tuple(v) => {
            let mut out = vec![];
            let mut free = false;
            for x in v {
                match meaning(x) {
                    Want::Is(d) => out.push(d),
                    // the first trouble in reading order may be either
                    Want::Refused => return if free { Want::Free } else { Want::Refused },
                    Want::Free => free = true,
                }
            }
            if free {
                Want::Free
            } else {
                Want::Is(Dyn::Seq(out))
            }
        }
        MExpr::Object(v) => {
            let mut out: Vec<(String, Dyn)> = vec![];
            let mut free = false;
            for (k, x) in v {
                let Some(k) = key_text(k) else { return Want::Free };
                if out.iter().any(|(j, _)| *j == k) {
                    return if free { Want::Free } else { Want::Refused };
                }
                match meaning(x) {
                    Want::Is(d) => out.push((k, d)),
                    Want::Refused => return if free { Want::Free } else { Want::Refused },
                    Want::Free => {
                        free = true;
                        out.push((k, Dyn::Unit));
                    }
                }
            }
            if free {
                Want::Free
            } else {
                Want::Is(Dyn::Map(out))
            }
        }
    }
}

fn mexpr(s: &mut Src) -> MExpr {
    let mut sh = gen::shape(s);
    sh.obj_expr_keys = s.chance(1, 3);
    let d = s.range(0, sh.depth);
    let mut e = gen::expr(s, &sh, d);
    tame(s, &mut e);
    e
}

/// mostly integers that fit, sometimes repeated keys
fn tame(s: &mut Src, e: &mut MExpr) {
    match e {
        MExpr::Num(t) => {
            if is_int(t) && number_value(t).is_none() && s.chance(9, 10) {
                *t = s.pick(&["0", "-1", "18446744073709551615", "9223372036854775808", "-9223372036854775808", "42", "-0", "+7"]).to_string();
            }
        }
        MExpr::Tuple(v) => v.iter_mut().for_each(|x| tame(s, x)),
        MExpr::Object(v) => {
            for i in 0..v.len() {
                if let (MKey::Ident(_), true) = (&v[i].0, s.chance(3, 4)) {
                    v[i].0 = MKey::Ident(format!("k{}", i));
                }
                tame(s, &mut v[i].1);
            }
        }
        _ => {}
    }
}

pub fn text_of(s: &mut Src, e: &MExpr) -> String {
    let mut l = Lay::new(s);
    l.no_heredoc = true;
    l.expr(s, e);
    l.out
}

// ------------------------------------------------------------------ C19

fn c19_key(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = if s.bool() { gen::ident(s) } else { any_text(s) };
    let k = match s.below(6) {
        0 => Key::new_identifier(&t),
        1 => Key::new_identifier_owned(t.clone()),
        2 => Key::new_string(&t),
        3 => Key::new_string_owned(t.clone()),
        4 => Key::from(t.as_str()),
        _ => Key::from(t.clone()),
    };
    c.show = format!("{:?}", k);
    c.nontrivial_if(matches!(k, Key::String(_)) || !t.is_ascii());
    let (k2, k3) = (k.clone(), AsOwned::as_owned(&k));
    same("key as a string", &String::deserialize(k).map_err(|e| e.to_string())?, &t)?;
    same("key through a self-describing visitor", &Dyn::deserialize(k2).map_err(|e| e.to_string())?, &Dyn::Str(t.clone()))?;
    same("owned key as a string", &String::deserialize(k3).map_err(|e| e.to_string())?, &t)
}

fn c19_dynamic(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let e = mexpr(s);
    let t = text_of(s, &e);
    c.show = t.clone();
    c.nontrivial_if(expr_nodes(&e) >= 2);
    let x = Expression::parse(&t).map_err(|e| disp(&e))?;
    let owned = x.as_owned();
    let a = Dyn::deserialize(x);
    let b = Dyn::deserialize(owned);
    match (&a, &b) {
        (Ok(a), Ok(b)) => same("borrowed and owned reading", a, b)?,
        (Err(_), Err(_)) => {}
        _ => return Err("borrowed and owned readings disagree about success".into()),
    }
    match (a, meaning(&e)) {
        (Ok(g), Want::Is(w)) => same("value", &norm(g), &w),
        (Err(g), Want::Is(w)) => Err(format!("refused ({}) although it means {:?}", g, clip(&format!("{:?}", w), 300))),
        (Ok(g), Want::Refused) => Err(format!("a repeated key was accepted: {}", clip(&format!("{:?}", g), 300))),
        (Err(_), Want::Refused) => {
            c.label("refused");
            Ok(())
        }
        (Err(_), Want::Free) => Ok(()),
        (Ok(g), Want::Free) => {
            // whatever it was turned into, nothing may have been dropped
            c.label("free");
            shape_matches(&e, &g)
        }
    }
}

fn shape_matches(e: &MExpr, g: &Dyn) -> CaseResult {
    match (e, g) {
        (MExpr::Tuple(v), Dyn::Seq(w)) => {
            ensure!(v.len() == w.len(), "{} elements became {}", v.len(), w.len());
            v.iter().zip(w).try_for_each(|(a, b)| shape_matches(a, b))
        }
        (MExpr::Object(v), Dyn::Map(w)) => {
            ensure!(v.len() == w.len(), "{} entries became {}", v.len(), w.len());
            v.iter().zip(w).try_for_each(|(a, b)| shape_matches(&a.1, &b.1))
        }
        (MExpr::Num(t), d) => match (number_value(t), d) {
            (Some(w), d) => same("number", &norm(d.clone()), &w),
            // beyond 64 bits: only something exact will do
            (None, Dyn::F64(b)) => {
                ensure!(f64_right(t, f64::from_bits(*b)), "{} read as {:e}", t, f64::from_bits(*b));
                Ok(())
            }
            (None, Dyn::Str(x)) if x == t => Ok(()),
            (None, d) => Err(format!("{} read as {:?}", t, d)),
        },
        (MExpr::Tuple(_), d) | (MExpr::Object(_), d) => Err(format!("an aggregate became {:?}", d)),
        _ => match (meaning(e), g) {
            (Want::Is(w), g) => same("value", g, &w),
            _ => Ok(()),
        },
    }
}

macro_rules! into_ints {
    ($t:expr, $c:expr, $x:expr, $($ty:ident)*) => {$({
        let fits64 = within($c, &i64::MIN.to_string(), &u64::MAX.to_string());
        let fits = is_int($t) && within($c, &$ty::MIN.to_string(), &$ty::MAX.to_string());
        match $ty::deserialize($x.clone()) {
            Ok(v) => {
                ensure!(fits, "{} was read as the {} {}", $t, stringify!($ty), v);
                same(stringify!($ty), &v.to_string(), &$c.to_string())?;
            }
            Err(e) => ensure!(!fits || !fits64, "{} cannot be read as {}: {}", $t, stringify!($ty), e),
        }
    })*};
}

fn c19_numbers(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = if s.chance(1, 3) { format!("{}{}", s.pick(&["", "-", "+"]), s.pick(gen::BOUNDARY)) } else { gen::num_text(s) };
    c.show = t.clone();
    c.nontrivial = true;
    let x = Expression::parse(&t).map_err(|e| disp(&e))?;
    let cn = canon(&t);
    into_ints!(&t, &cn, x, u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize isize);
    let fits64 = is_int(&t) && within(&cn, &i64::MIN.to_string(), &u64::MAX.to_string());
    c.label(if !is_int(&t) {
        "float"
    } else if fits64 {
        "64-bit integer"
    } else {
        "wide integer"
    });
    let minus_zero = cn == "0" && is_int(&t);
    match f64::deserialize(x.clone()) {
        Ok(f) => ensure!(f64_right(&t, f) || minus_zero && f == 0.0, "{} was read as the f64 {:e}", t, f),
        Err(e) => ensure!(is_int(&t) && !fits64, "{} cannot be read as f64: {}", t, e),
    }
    match f32::deserialize(x.clone()) {
        Ok(f) => {
            let via = t.parse::<f64>().unwrap() as f32;
            ensure!(super::numbers::f32_right(&t, f) || f == via || minus_zero && f == 0.0, "{} was read as the f32 {:e}", t, f)
        }
        Err(e) => ensure!(is_int(&t) && !fits64, "{} cannot be read as f32: {}", t, e),
    }
    ensure!(bool::deserialize(x.clone()).is_err(), "a number was read as a boolean");
    ensure!(String::deserialize(x.clone()).is_err(), "a number was read as a string");
    ensure!(<()>::deserialize(x.clone()).is_err(), "a number was read as unit");
    ensure!(Vec::<Dyn>::deserialize(x.clone()).is_err(), "a number was read as a sequence");
    match (Option::<i64>::deserialize(x.clone()), i64::deserialize(x)) {
        (Ok(Some(a)), Ok(b)) => same("option", &a, &b),
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(format!("Option<i64> {:?} but i64 {:?}", a.map_err(|e| e.to_string()), b.map_err(|e| e.to_string()))),
    }
}

#[derive(De, Debug, PartialEq, Clone)]
struct TwoFields {
    a: Dyn,
    b: Dyn,
}
#[derive(De, Debug, PartialEq, Clone)]
struct Defaulted {
    #[serde(default)]
    a: Option<Dyn>,
    #[serde(default)]
    b: Option<Dyn>,
}
#[derive(De, Debug, PartialEq, Clone)]
struct Unit;
#[derive(De, Debug, PartialEq, Clone)]
struct Empty {}
#[derive(De, Debug, PartialEq, Clone)]
struct NewDyn(Dyn);
#[derive(De, Debug, PartialEq, Clone)]
struct NewStr(String);
#[derive(De, Debug, PartialEq, Clone)]
struct TupStruct(Dyn, Dyn);
#[derive(De, Debug, PartialEq, Clone)]
#[allow(non_camel_case_types)]
enum Choice {
    a,
    b(i64),
    c { x: Dyn },
}

/// outcome of one target: text of the value, or refused
fn into<'de, T: Deserialize<'de> + Debug>(x: Expression<'de>) -> Option<String> {
    let r: Result<T, Compat> = T::deserialize(x);
    match r {
        Ok(v) => Some(format!("{:?}", v)),
        Err(e) => {
            let t = format!("{} {:?}", e, e);
            if t.contains("HINT:") {
                return Some(t);
            }
            None
        }
    }
}

fn show<T: Debug>(t: T) -> Option<String> {
    Some(format!("{:?}", t))
}

fn c19_typed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut e = mexpr(s);
    if s.chance(1, 3) {
        // objects with the fields of the structs
        let n = s.range(0, 3);
        let mut v: Vec<(MKey, MExpr)> = vec![];
        for k in ["a", "b", "x"] {
            if s.chance(4, 5) {
                v.push((MKey::Ident(k.into()), mexpr(s)));
            }
        }
        for _ in 0..n {
            if v.len() > 1 {
                let i = s.below(v.len());
                let x = v.remove(i);
                v.push(x);
            }
        }
        e = MExpr::Object(v);
    }
    let t = text_of(s, &e);
    c.show = t.clone();
    c.nontrivial = true;
    let w = match meaning(&e) {
        Want::Is(w) => w,
        Want::Refused => {
            c.label("refused");
            let x = Expression::parse(&t).map_err(|e| disp(&e))?;
            ensure!(NewDyn::deserialize(x).is_err(), "a repeated key was accepted");
            return Ok(());
        }
        Want::Free => {
            c.discard = true;
            return Ok(());
        }
    };
    let x = Expression::parse(&t).map_err(|e| disp(&e))?;
    c.label(x.variant_name());
    // what a self-describing reading of an integer looks like depends on its sign; normalise through it
    let same_kind = |what: &str, got: Option<String>, want: Option<String>| -> CaseResult {
        let fix = |o: Option<String>| o.map(|t| t.replace("U64(", "I64("));
        same(what, &fix(got), &fix(want))
    };
    let d = &w;
    let str_ = |d: &Dyn| if let Dyn::Str(t) = d { Some(t.clone()) } else { None };
    let seq = |d: &Dyn| if let Dyn::Seq(t) = d { Some(t.clone()) } else { None };
    let map = |d: &Dyn| if let Dyn::Map(t) = d { Some(t.clone()) } else { None };
    same_kind("bool", into::<bool>(x.clone()), if let Dyn::Bool(b) = d { show(b) } else { None })?;
    same_kind("String", into::<String>(x.clone()), str_(d).and_then(show))?;
    same_kind("Cow<str>", into::<std::borrow::Cow<str>>(x.clone()), str_(d).and_then(show))?;
    same_kind("char", into::<char>(x.clone()), str_(d).filter(|t| t.chars().count() == 1).and_then(|t| show(t.chars().next().unwrap())))?;
    same_kind("()", into::<()>(x.clone()), if *d == Dyn::Unit { show(()) } else { None })?;
    same_kind("unit struct", into::<Unit>(x.clone()), if *d == Dyn::Unit { show(Unit) } else { None })?;
    same_kind("Option<Dyn>", into::<Option<Dyn>>(x.clone()), if *d == Dyn::Unit { show(None::<Dyn>) } else { show(Some(d)) })?;
    same_kind("Option<String>", into::<Option<String>>(x.clone()), if *d == Dyn::Unit { show(None::<String>) } else { str_(d).and_then(|t| show(Some(t))) })?;
    same_kind("newtype", into::<NewDyn>(x.clone()), show(NewDyn(d.clone())))?;
    same_kind("newtype of string", into::<NewStr>(x.clone()), str_(d).and_then(|t| show(NewStr(t))))?;
    same_kind("Box", into::<Box<Dyn>>(x.clone()), show(d))?;
    same_kind("Vec<Dyn>", into::<Vec<Dyn>>(x.clone()), seq(d).and_then(show))?;
    same_kind("std::collections::VecDeque", into::<std::collections::VecDeque<Dyn>>(x.clone()), seq(d).and_then(show))?;
    same_kind("Vec<String>", into::<Vec<String>>(x.clone()), seq(d).and_then(|v| v.iter().map(|d| str_(d)).collect::<Option<Vec<_>>>()).and_then(show))?;
    let len = |n: usize| seq(d).filter(|v| v.len() == n);
    same_kind("[Dyn; 0]", into::<[Dyn; 0]>(x.clone()).map(|t| t), None.or(len(0).map(|_| "[]".to_string())).or_else(|| zero_array(&x)))?;
    same_kind("[Dyn; 1]", into::<[Dyn; 1]>(x.clone()), len(1).and_then(show))?;
    same_kind("[Dyn; 3]", into::<[Dyn; 3]>(x.clone()), len(3).and_then(show))?;
    same_kind("pair", into::<(Dyn, Dyn)>(x.clone()), len(2).and_then(|v| show((&v[0], &v[1]))))?;
    same_kind("triple", into::<(Dyn, Dyn, Dyn)>(x.clone()), len(3).and_then(|v| show((&v[0], &v[1], &v[2]))))?;
    same_kind("tuple struct", into::<TupStruct>(x.clone()), len(2).and_then(|v| show(TupStruct(v[0].clone(), v[1].clone()))))?;
    same_kind("BTreeMap", into::<BTreeMap<String, Dyn>>(x.clone()), map(d).and_then(|m| show(m.into_iter().collect::<BTreeMap<_, _>>())))?;
    let get = |m: &Vec<(String, Dyn)>, k: &str| m.iter().find(|(j, _)| j == k).map(|x| x.1.clone());
    let two = map(d).and_then(|m| Some(TwoFields { a: get(&m, "a")?, b: get(&m, "b")? }));
    let got = into::<TwoFields>(x.clone());
    match seq(d) {
        // a struct may be read from a sequence, but only a complete one
        Some(v) => {
            if got.is_some() {
                ensure!(v.len() == 2, "a struct of two fields was read from {} elements", v.len());
                same_kind("struct from a tuple", got, show(TwoFields { a: v[0].clone(), b: v[1].clone() }))?;
            }
        }
        None => same_kind("struct", got, two.and_then(show))?,
    }
    if let Some(m) = map(d) {
        let f = |k: &str| get(&m, k).filter(|x| *x != Dyn::Unit);
        same_kind("struct with defaults", into::<Defaulted>(x.clone()), show(Defaulted { a: f("a"), b: f("b") }))?;
        same_kind("empty struct", into::<Empty>(x.clone()), show(Empty {}))?;
    } else if let Some(v) = seq(d) {
        if into::<Empty>(x.clone()).is_some() {
            ensure!(v.is_empty(), "an empty struct was read from {} elements", v.len());
        }
    } else {
        same_kind("struct with defaults", into::<Defaulted>(x.clone()), None)?;
        same_kind("empty struct", into::<Empty>(x.clone()), None)?;
    }
    // enums: never from numbers, booleans, null; otherwise at most the variant that is named
    if let Some(g) = into::<Choice>(x.clone()) {
        let ok = match d {
            Dyn::Str(t) => g == "a" && t == "a",
            Dyn::Map(m) => m.len() == 1 && g.starts_with(m[0].0.as_str()),
            _ => false,
        };
        ensure!(ok, "enum read as {}", g);
    }
    ensure!(into::<IgnoredAny>(x.clone()).is_some(), "IgnoredAny failed");
    Ok(())
}

/// serde reads `[T; 0]` through a visitor of its own; whatever kind it accepts must then be an empty tuple
fn zero_array(x: &Expression) -> Option<String> {
    match x {
        Expression::Tuple(v) if v.is_empty() => Some("[]".into()),
        _ => None,
    }
}

// ------------------------------------------------------------------ C20

#[derive(De, Debug, PartialEq, Clone)]
struct Leaf {
    name: String,
    n: i64,
    u: u64,
    small: i8,
    f: f64,
    flag: bool,
    opt: Option<String>,
    list: Vec<i32>,
    pair: (i16, String),
    map: BTreeMap<String, u32>,
    grid: Vec<Vec<bool>>,
    ch: char,
    nothing: (),
    label: NewStr,
}

#[derive(De, Debug, PartialEq, Clone)]
struct Mid {
    title: String,
    #[serde(default)]
    leaf: Vec<Leaf>,
    one: Option<Box<Leaf>>,
    #[serde(default)]
    mid: Vec<Mid>,
    weight: f64,
}

#[derive(De, Debug, PartialEq, Clone)]
struct Top {
    version: u64,
    #[serde(default)]
    leaf: Vec<Leaf>,
    #[serde(default)]
    mid: Vec<Mid>,
    single: Mid,
    tags: Vec<String>,
    #[serde(default)]
    extra: HashMap<String, Vec<u8>>,
}

fn real(s: &mut Src) -> f64 {
    match s.below(3) {
        0 => s.below(4000) as f64 / 16.0 - 100.0,
        1 => *s.pick(&[0.0, 1e300, 5e-324, f64::MAX, -1e-7, 0.1]),
        _ => {
            let f = f64::from_bits(s.u64());
            if f.is_finite() {
                f
            } else {
                1.25
            }
        }
    }
}

fn gen_leaf(s: &mut Src) -> Leaf {
    Leaf {
        name: gen::text(s, 6),
        n: s.u64() as i64 >> s.below(64),
        u: s.u64() >> s.below(64),
        small: s.u64() as i8,
        f: real(s),
        flag: s.bool(),
        opt: if s.bool() { Some(gen::text(s, 4)) } else { None },
        list: (0..s.len(4)).map(|_| s.u64() as i32).collect(),
        pair: (s.u64() as i16, gen::text(s, 3)),
        map: (0..s.len(3)).map(|_| (gen::text(s, 3), s.u64() as u32)).collect(),
        grid: (0..s.len(3)).map(|_| (0..s.len(3)).map(|_| s.bool()).collect()).collect(),
        ch: gen::ch(s),
        nothing: (),
        label: NewStr(gen::text(s, 3)),
    }
}

fn gen_mid(s: &mut Src, depth: usize) -> Mid {
    Mid {
        title: gen::text(s, 5),
        leaf: (0..s.len(3)).map(|_| gen_leaf(s)).collect(),
        one: if s.bool() { Some(Box::new(gen_leaf(s))) } else { None },
        mid: if depth > 0 { (0..s.len(2)).map(|_| gen_mid(s, depth - 1)).collect() } else { vec![] },
        weight: real(s),
    }
}

pub fn okeyed(s: &mut Src, k: &str) -> MKey {
    match refp::identifier(k, 0) {
        Ok((_, n)) if n == k.len() && s.chance(2, 3) => MKey::Ident(k.to_string()),
        _ => {
            let mut l = Lay::plain();
            l.quoted(s, k, true);
            MKey::Expr(l.out)
        }
    }
}

fn fl(f: f64) -> MExpr {
    MExpr::Num(format!("{:?}", f))
}

fn int<T: std::fmt::Display>(t: T) -> MExpr {
    MExpr::Num(t.to_string())
}

fn attr(k: &str, e: MExpr) -> MElem {
    MElem::Attr(k.into(), e)
}

fn blk(k: &str, b: MBody) -> MElem {
    MElem::Block(MBlock { ty: k.into(), labels: vec![], body: b })
}

/// interleave the groups, keeping the order inside each
pub fn weave(s: &mut Src, mut groups: Vec<Vec<MElem>>) -> MBody {
    groups.iter_mut().for_each(|g| g.reverse());
    let mut out = vec![];
    loop {
        groups.retain(|g| !g.is_empty());
        if groups.is_empty() {
            return out;
        }
        let i = s.below(groups.len());
        out.push(groups[i].pop().unwrap());
    }
}

fn leaf_body(s: &mut Src, l: &Leaf) -> MBody {
    let mut g = vec![
        vec![attr("name", MExpr::Str(l.name.clone()))],
        vec![attr("n", int(l.n))],
        vec![attr("u", int(l.u))],
        vec![attr("small", int(l.small))],
        vec![attr("f", fl(l.f))],
        vec![attr("flag", MExpr::Bool(l.flag))],
        vec![attr("list", MExpr::Tuple(l.list.iter().map(int).collect()))],
        vec![attr("pair", MExpr::Tuple(vec![int(l.pair.0), MExpr::Str(l.pair.1.clone())]))],
        vec![attr("map", MExpr::Object(l.map.iter().map(|(k, v)| (okeyed(s, k), int(v))).collect()))],
        vec![attr("grid", MExpr::Tuple(l.grid.iter().map(|r| MExpr::Tuple(r.iter().map(|b| MExpr::Bool(*b)).collect())).collect()))],
        vec![attr("ch", MExpr::Str(l.ch.to_string()))],
        vec![attr("nothing", MExpr::Null)],
        vec![attr("label", MExpr::Str(l.label.0.clone()))],
    ];
    match &l.opt {
        Some(t) => g.push(vec![attr("opt", MExpr::Str(t.clone()))]),
        None => {
            if s.bool() {
                g.push(vec![attr("opt", MExpr::Null)])
            }
        }
    }
    weave(s, g)
}

fn mid_body(s: &mut Src, m: &Mid) -> MBody {
    let mut g = vec![vec![attr("title", MExpr::Str(m.title.clone()))], vec![attr("weight", fl(m.weight))]];
    g.push(m.leaf.iter().map(|l| blk("leaf", leaf_body(s, l))).collect());
    g.push(m.mid.iter().map(|l| blk("mid", mid_body(s, l))).collect());
    if let Some(l) = &m.one {
        g.push(vec![blk("one", leaf_body(s, l))]);
    }
    weave(s, g)
}

fn c20_typed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let top = Top {
        version: s.u64() >> s.below(64),
        leaf: (0..s.len(3)).map(|_| gen_leaf(s)).collect(),
        mid: (0..s.len(3)).map(|_| gen_mid(s, 1)).collect(),
        single: gen_mid(s, 1),
        tags: (0..s.len(4)).map(|_| gen::text(s, 4)).collect(),
        extra: (0..s.len(3)).map(|_| (gen::text(s, 3), (0..s.len(3)).map(|_| s.u64() as u8).collect())).collect(),
    };
    c.nontrivial_if(top.leaf.len() + top.mid.len() >= 1);
    c.label_if(top.leaf.len() >= 2 && top.mid.len() >= 2, "several blocks of several types");
    let mut g = vec![
        vec![attr("version", int(top.version))],
        vec![attr("tags", MExpr::Tuple(top.tags.iter().map(|t| MExpr::Str(t.clone())).collect()))],
        top.leaf.iter().map(|l| blk("leaf", leaf_body(s, l))).collect(),
        top.mid.iter().map(|l| blk("mid", mid_body(s, l))).collect(),
        vec![blk("single", mid_body(s, &top.single))],
    ];
    if !top.extra.is_empty() || s.bool() {
        let mut e: Vec<_> = top.extra.iter().collect();
        e.sort();
        let o = e.iter().map(|(k, v)| (okeyed(s, k), MExpr::Tuple(v.iter().map(int).collect()))).collect();
        g.push(vec![attr("extra", MExpr::Object(o))]);
    }
    let b = weave(s, g);
    let mut l = Lay::new(s);
    l.document(s, &b);
    c.show = l.out.clone();
    let got: Top = from_str(&l.out).map_err(|e| format!("not deserialized: {}", clip(&e.to_string(), 300)))?;
    same("configuration", &got, &top)?;
    // through the lower-level entry points
    let d = BodyDeserializer::from_str(&l.out).map_err(|e| e.to_string())?;
    let again = Top::deserialize(d).map_err(|e| e.to_string())?;
    ensure!(again == top, "Deserializer::from_str gives a different configuration");
    let body = parse_str(&l.out).map_err(|e| disp(&e))?;
    let again = Top::deserialize(BodyDeserializer::new(body.as_owned())).map_err(|e| e.to_string())?;
    ensure!(again == top, "Deserializer::new gives a different configuration");
    let again = Top::deserialize(BodyDeserializer::new(body).into_deserializer()).map_err(|e| e.to_string())?;
    ensure!(again == top, "into_deserializer gives a different configuration");
    Ok(())
}

/// what a self-describing reading must give: attributes and block types, sorted
pub fn body_meaning(b: &MBody) -> Want {
    let mut out: Vec<(String, Dyn)> = vec![];
    let mut blocks: Vec<(String, Vec<Dyn>)> = vec![];
    let mut free = false;
    let mut refused = false;
    for e in b {
        match e {
            MElem::Attr(k, x) => {
                if out.iter().any(|(j, _)| j == k) {
                    refused = true;
                    continue;
                }
                let d = match meaning(x) {
                    Want::Is(d) => d,
                    Want::Refused => {
                        refused = true;
                        Dyn::Unit
                    }
                    Want::Free => {
                        free = true;
                        Dyn::Unit
                    }
                };
                out.push((k.clone(), d));
            }
            MElem::Block(x) => {
                if !x.labels.is_empty() {
                    free = true;
                }
                let d = match body_meaning(&x.body) {
                    Want::Is(d) => d,
                    Want::Refused => {
                        refused = true;
                        Dyn::Unit
                    }
                    Want::Free => {
                        free = true;
                        Dyn::Unit
                    }
                };
                match blocks.iter_mut().find(|(k, _)| *k == x.ty) {
                    Some((_, v)) => v.push(d),
                    None => blocks.push((x.ty.clone(), vec![d])),
                }
            }
        }
    }
    for (k, mut v) in blocks {
        if out.iter().any(|(j, _)| *j == k) {
            refused = true;
        }
        let d = if v.len() == 1 { v.pop().unwrap() } else { Dyn::Seq(v) };
        out.push((k, d));
    }
    if refused {
        return Want::Refused;
    }
    if free {
        return Want::Free;
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    Want::Is(Dyn::Map(out))
}

/// the order of different names in a body is not part of the statement
fn sort_bodies(d: Dyn, b: &MBody) -> Dyn {
    match d {
        Dyn::Map(mut v) => {
            for (k, x) in v.iter_mut() {
                let bodies: Vec<&MBody> = b.iter().filter_map(|e| if let MElem::Block(x) = e { (x.ty == *k).then_some(&x.body) } else { None }).collect();
                if bodies.is_empty() {
                    continue;
                }
                let old = std::mem::replace(x, Dyn::Unit);
                *x = match old {
                    Dyn::Seq(v) if bodies.len() > 1 => Dyn::Seq(v.into_iter().enumerate().map(|(i, x)| if i < bodies.len() { sort_bodies(x, bodies[i]) } else { x }).collect()),
                    x => sort_bodies(x, bodies[0]),
                };
            }
            v.sort_by(|a, b| a.0.cmp(&b.0));
            Dyn::Map(v)
        }
        d => d,
    }
}

pub fn plain_body(s: &mut Src, depth: usize, distinct: bool) -> MBody {
    let n = s.len(4 + s.size);
    let mut out: MBody = vec![];
    for i in 0..n {
        if depth > 0 && s.bool() {
            let ty = if distinct { format!("b_{}", gen::small_name(s)) } else { gen::small_name(s) };
            out.push(MElem::Block(MBlock { ty, labels: vec![], body: plain_body(s, depth - 1, distinct) }));
        } else {
            let k = if distinct || s.chance(2, 3) { format!("{}{}", gen::ident(s), i) } else { gen::small_name(s) };
            let sh = Shape { depth: 2, width: 3, obj_expr_keys: s.chance(1, 3), old: false };
            let d = s.below(3);
            let mut e = gen::expr(s, &sh, d);
            tame(s, &mut e);
            out.push(MElem::Attr(k, e));
        }
    }
    out
}

fn c20_dynamic(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let distinct = s.chance(2, 3);
    let d = s.range(1, 3);
    let b = plain_body(s, d, distinct);
    let mut l = Lay::new(s);
    l.document(s, &b);
    c.show = l.out.clone();
    c.nontrivial_if(b.len() >= 2);
    let got: Result<Dyn, _> = from_str(&l.out);
    match (got, body_meaning(&b)) {
        (Ok(g), Want::Is(w)) => {
            c.label("accepted");
            same("document", &sort_bodies(norm(g), &b), &w)
        }
        (Err(e), Want::Is(_)) => Err(format!("refused: {}", clip(&e.to_string(), 300))),
        (Ok(g), Want::Refused) => Err(format!("repeated names were accepted: {}", clip(&format!("{:?}", g), 300))),
        (Err(_), Want::Refused) => {
            c.label("refused");
            Ok(())
        }
        _ => {
            c.discard = true;
            Ok(())
        }
    }
}

/// an expression read as whatever it is, against what is written there
pub fn expression_means(x: Expression, e: &MExpr) -> CaseResult {
    match (Dyn::deserialize(x), meaning(e)) {
        (Ok(g), Want::Is(w)) => same("value", &norm(g), &w),
        (Err(g), Want::Is(_)) => Err(format!("refused: {}", clip(&g.to_string(), 300))),
        (Ok(_), Want::Refused) => Err("a repeated key was accepted".into()),
        _ => Ok(()),
    }
}

/// the same for a document
pub fn document_means(t: &str, b: &MBody) -> CaseResult {
    match (from_str::<Dyn>(t), body_meaning(b)) {
        (Ok(g), Want::Is(w)) => same("document", &sort_bodies(norm(g), b), &w),
        (Err(e), Want::Is(_)) => Err(format!("refused: {}", clip(&e.to_string(), 300))),
        (Ok(_), Want::Refused) => Err("repeated names were accepted".into()),
        _ => Ok(()),
    }
}

/// blocks with labels have no representation: reading them is an error, dropping them is not
fn c20_labelled(s: &mut Src, c: &mut Ctx) -> CaseResult {
    #[derive(De, Debug)]
    #[allow(dead_code)]
    struct Listed {
        #[serde(default)]
        zz: Vec<Dyn>,
    }
    #[derive(De, Debug)]
    #[allow(dead_code)]
    struct Perhaps {
        #[serde(default)]
        zz: Option<Dyn>,
    }
    #[derive(De, Debug)]
    #[allow(dead_code)]
    struct Inner {
        #[serde(default)]
        zz: Vec<HashMap<String, Dyn>>,
    }
    #[derive(De, Debug)]
    #[allow(dead_code)]
    struct Below {
        #[serde(default)]
        yy: Vec<Inner>,
    }
    #[derive(De, Debug)]
    #[allow(dead_code)]
    struct Other {
        #[serde(default)]
        xx: Option<Dyn>,
    }
    let n = s.range(1, 2);
    let labels: Vec<MLabel> = (0..n).map(|_| gen::label(s)).collect();
    let inner = if s.bool() { vec![] } else { plain_body(s, 1, true) };
    let mut blocks = vec![MElem::Block(MBlock { ty: "zz".into(), labels, body: inner })];
    let more = s.below(3);
    for _ in 0..more {
        let at = s.range(0, blocks.len());
        let b = if s.bool() { vec![] } else { plain_body(s, 1, true) };
        let mut b = MBlock { ty: "zz".into(), labels: vec![], body: b };
        if s.chance(1, 5) {
            b.labels.push(gen::label(s));
        }
        blocks.insert(at, MElem::Block(b));
    }
    let deep = s.chance(1, 3);
    let mut rest = plain_body(s, 1, true);
    rest.retain(|e| match e {
        MElem::Attr(k, _) => k != "zz" && k != "yy",
        MElem::Block(b) => b.ty != "zz" && b.ty != "yy",
    });
    if let Want::Is(_) = body_meaning(&rest) {
    } else {
        c.discard = true;
        return Ok(());
    }
    let mut doc = weave(s, vec![blocks, rest]);
    if deep {
        doc = vec![MElem::Block(MBlock { ty: "yy".into(), labels: vec![], body: doc })];
        if s.bool() {
            doc.insert(s.below(2), blk("yy", vec![]));
        }
    }
    c.nontrivial_if(more > 0 || deep);
    c.label_if(deep, "below the top level");
    let mut l = Lay::new(s);
    l.document(s, &doc);
    let t = &l.out;
    c.show = t.clone();
    fn refused<'a, T: Deserialize<'a> + Debug>(what: &str, t: &'a str) -> CaseResult {
        match from_str::<T>(t) {
            Err(_) => Ok(()),
            Ok(x) => Err(format!("a labelled block was read as {}: {}", what, clip(&format!("{:?}", x), 300))),
        }
    }
    refused::<Dyn>("anything", t)?;
    refused::<HashMap<String, Dyn>>("map", t)?;
    if deep {
        refused::<Below>("list below", t)?;
    } else {
        refused::<Listed>("list", t)?;
        refused::<Perhaps>("option", t)?;
        refused::<Inner>("list of maps", t)?;
    }
    // not read, not in the way
    ensure!(from_str::<IgnoredAny>(t).is_ok(), "could not be ignored");
    if !doc.iter().any(|e| matches!(e, MElem::Attr(k, _) if k == "xx") || matches!(e, MElem::Block(b) if b.ty == "xx")) {
        ensure!(from_str::<Other>(t).is_ok(), "is in the way of a type that does not read it");
    }
    Ok(())
}

/// bodies of one block type read without a document around them
fn c20_group(s: &mut Src, c: &mut Ctx) -> CaseResult {
    use ferrous_chloride::parser::block::{BlockBody, Blocks};
    use ferrous_chloride::parser::Block;
    let n = s.len(5);
    let distinct = s.chance(3, 4);
    let bodies: Vec<MBody> = (0..n).map(|_| plain_body(s, 1, distinct)).collect();
    let built: Vec<_> = bodies.iter().map(|b| super::syntax::build_body(s, b)).collect();
    let by_hand = s.below(3);
    let group = || match by_hand {
        0 => BlockBody::Body(built.clone()),
        1 => BlockBody::Labels { empty: built.clone(), labels: Default::default() },
        _ => {
            let blocks: Blocks = built.iter().map(|b| Block::new("x".into(), vec![], b.clone())).collect();
            let mut all: Vec<_> = blocks.into_iter().map(|(_, b)| b).collect();
            all.pop().unwrap_or_else(|| BlockBody::Body(vec![]))
        }
    };
    c.show = format!("{:?} {:?}", by_hand, bodies);
    c.nontrivial_if(n != 1);
    c.label(["body", "no labels", "indexed"][by_hand]);
    let mut want = vec![];
    let mut refused = false;
    for b in &bodies {
        match body_meaning(b) {
            Want::Is(d) => want.push(d),
            Want::Refused => refused = true,
            Want::Free => {
                c.discard = true;
                return Ok(());
            }
        }
    }
    let sorted = |d: Dyn| match norm(d) {
        Dyn::Seq(v) if n != 1 => Dyn::Seq(v.into_iter().enumerate().map(|(i, x)| if i < n { sort_bodies(x, &bodies[i]) } else { x }).collect()),
        d if n == 1 => sort_bodies(d, &bodies[0]),
        d => d,
    };
    let whole = |v: &[Dyn]| if v.len() == 1 { v[0].clone() } else { Dyn::Seq(v.to_vec()) };
    ensure!(IgnoredAny::deserialize(group()).is_ok(), "{} bodies could not be ignored", n);
    if refused {
        ensure!(Dyn::deserialize(group()).is_err(), "a body with repeated names was accepted");
        return Ok(());
    }
    let got = Dyn::deserialize(group()).map_err(|e| format!("refused: {}", e))?;
    same("self-describing", &sorted(got), &whole(&want))?;
    let got = Option::<Dyn>::deserialize(group()).map_err(|e| format!("refused as an option: {}", e))?;
    same("option", &got.map(sorted), &if n == 0 { None } else { Some(whole(&want)) })?;
    // one body under hand-made empty labels is read as that body, and not as a list
    if n != 1 || by_hand != 1 {
        let got = Vec::<Dyn>::deserialize(group()).map_err(|e| format!("refused as a list: {}", e))?;
        let got: Vec<Dyn> = got.into_iter().enumerate().map(|(i, x)| if i < n { sort_bodies(norm(x), &bodies[i]) } else { x }).collect();
        same("list", &got, &want)?;
    }
    Ok(())
}

macro_rules! doc_type {
    ($name:ident, $ty:ty) => {
        #[derive(De, Debug, PartialEq, Clone)]
        struct $name {
            blk: $ty,
        }
    };
}
#[derive(De, Debug, PartialEq, Clone)]
struct Ordinal {
    i: usize,
}
#[derive(De, Debug, PartialEq, Clone)]
struct Wrapped(Ordinal);
#[derive(De, Debug, PartialEq, Clone)]
struct InStruct {
    first: Ordinal,
}
#[derive(De, Debug, PartialEq, Clone)]
struct PairOf(Ordinal, Ordinal);
doc_type!(DocVec, Vec<Ordinal>);
doc_type!(DocOne, Ordinal);
doc_type!(DocOpt, Option<Ordinal>);
doc_type!(DocOptVec, Option<Vec<Ordinal>>);
doc_type!(DocPair, (Ordinal, Ordinal));
doc_type!(DocArray, [Ordinal; 3]);
doc_type!(DocWrapped, Wrapped);
doc_type!(DocInStruct, InStruct);
doc_type!(DocPairOf, PairOf);
doc_type!(DocEmpty, Empty);
doc_type!(DocDyn, Dyn);

fn c20_fixed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let n = s.range(1, 4);
    let mut b: MBody = vec![];
    for i in 0..n {
        if s.chance(1, 3) {
            b.push(attr(&format!("x{}", i), MExpr::Null));
        }
        if s.chance(1, 3) {
            b.push(blk("other", vec![]));
        }
        b.push(blk("blk", vec![attr("i", int(i))]));
    }
    if s.chance(1, 6) {
        let i = s.below(b.len() + 1);
        b.insert(i, attr("blk", MExpr::Null));
        c.label("name clash");
    }
    let clash = b.iter().any(|e| matches!(e, MElem::Attr(k, _) if k == "blk"));
    let mut l = Lay::new(s);
    l.document(s, &b);
    let t = l.out;
    c.show = t.clone();
    c.nontrivial_if(n >= 2);
    fn read<'a, T: Deserialize<'a>, F: Fn(T) -> Vec<usize>>(t: &'a str, f: F) -> Option<Vec<usize>> {
        from_str::<T>(t).ok().map(f)
    }
    let all: Vec<usize> = (0..n).collect();
    let got: Vec<(&str, bool, Option<Vec<usize>>)> = vec![
        ("vector", true, read::<DocVec, _>(&t, |d| d.blk.iter().map(|x| x.i).collect())),
        ("single", n == 1, read::<DocOne, _>(&t, |d| vec![d.blk.i])),
        ("option", n == 1, read::<DocOpt, _>(&t, |d| d.blk.iter().map(|x| x.i).collect())),
        ("option of vector", true, read::<DocOptVec, _>(&t, |d| d.blk.iter().flatten().map(|x| x.i).collect())),
        ("pair", false, read::<DocPair, _>(&t, |d| vec![d.blk.0.i, d.blk.1.i])),
        ("array of three", false, read::<DocArray, _>(&t, |d| d.blk.iter().map(|x| x.i).collect())),
        ("newtype", false, read::<DocWrapped, _>(&t, |d| vec![d.blk.0.i])),
        ("struct of one", false, read::<DocInStruct, _>(&t, |d| vec![d.blk.first.i])),
        ("tuple struct", false, read::<DocPairOf, _>(&t, |d| vec![d.blk.0.i, d.blk.1.i])),
    ];
    for (what, must, g) in got {
        match g {
            Some(g) => {
                ensure!(!clash, "{}: a name used as attribute and block was accepted", what);
                same(what, &g, &all)?
            }
            None => ensure!(!must || clash, "{}: {} blocks were refused", what, n),
        }
    }
    if n >= 2 {
        ensure!(from_str::<DocEmpty>(&t).is_err(), "{} blocks were read as one empty struct", n);
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

#[derive(De, Debug)]
#[allow(dead_code)]
struct Odd {
    a: Option<IgnoredAny>,
    #[serde(default)]
    b: Vec<BTreeMap<String, Dyn>>,
    c: Option<(Dyn, Dyn)>,
    #[serde(default)]
    d: HashMap<String, Vec<String>>,
}
#[derive(De, Debug)]
#[allow(dead_code)]
struct Nested {
    a: Option<Box<Nested>>,
    #[serde(default)]
    b: Vec<Nested>,
    c: Option<Choice>,
    d: Option<NewDyn>,
}
#[derive(De, Debug)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Strict {
    a: Option<u8>,
    b: Option<char>,
}
#[derive(De, Debug)]
#[serde(untagged)]
#[allow(dead_code)]
enum Untagged {
    Num(i32),
    Text(String),
    List(Vec<Untagged>),
    Map(BTreeMap<String, Untagged>),
}
#[derive(De, Debug)]
#[allow(dead_code)]
struct Flat {
    a: Option<Dyn>,
    #[serde(flatten)]
    rest: HashMap<String, Dyn>,
}

fn try_doc<'a, T: Deserialize<'a> + Debug>(t: &'a str) {
    match from_str::<T>(t) {
        Ok(v) => {
            let _ = format!("{:?}", v);
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
        }
    }
}

fn every_doc(t: &str) {
    try_doc::<Dyn>(t);
    try_doc::<IgnoredAny>(t);
    try_doc::<BTreeMap<String, Dyn>>(t);
    try_doc::<BTreeMap<String, IgnoredAny>>(t);
    try_doc::<BTreeMap<String, BTreeMap<String, Dyn>>>(t);
    try_doc::<BTreeMap<String, Vec<Dyn>>>(t);
    try_doc::<HashMap<String, Option<String>>>(t);
    try_doc::<HashMap<String, [Dyn; 2]>>(t);
    try_doc::<HashMap<String, (Dyn, Option<Dyn>, u8)>>(t);
    try_doc::<HashMap<char, i128>>(t);
    try_doc::<HashMap<String, f32>>(t);
    try_doc::<HashMap<String, Choice>>(t);
    try_doc::<HashMap<String, NewDyn>>(t);
    try_doc::<HashMap<String, Unit>>(t);
    try_doc::<HashMap<Choice2, Dyn>>(t);
    try_doc::<HashMap<String, &str>>(t);
    try_doc::<Vec<Dyn>>(t);
    try_doc::<Option<Dyn>>(t);
    try_doc::<(Dyn,)>(t);
    try_doc::<Choice>(t);
    try_doc::<()>(t);
    try_doc::<u8>(t);
    try_doc::<String>(t);
    try_doc::<Odd>(t);
    try_doc::<Nested>(t);
    try_doc::<Strict>(t);
    try_doc::<Untagged>(t);
    try_doc::<Flat>(t);
    try_doc::<Top>(t);
    try_doc::<TwoFields>(t);
}

#[derive(De, Debug, PartialEq, Eq, Hash)]
#[allow(non_camel_case_types)]
enum Choice2 {
    a,
    b,
    c,
    d,
}

fn c21_total(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = match s.below(4) {
        0 => any_text(s),
        1 => {
            // repeated names, labels, clashes
            let n = s.len(6);
            let mut b: MBody = vec![];
            for _ in 0..n {
                let k = gen::small_name(s);
                if s.bool() {
                    let nl = s.len(2);
                    let labels = (0..nl).map(|_| gen::label(s)).collect();
                    let body = plain_body(s, 1, false);
                    b.push(MElem::Block(MBlock { ty: k, labels, body }));
                } else {
                    let mut sh = gen::shape(s);
                    sh.obj_expr_keys = true;
                    let d = s.range(0, 3);
                    b.push(MElem::Attr(k, gen::expr(s, &sh, d)));
                }
            }
            let mut l = Lay::new(s);
            l.document(s, &b);
            c.label("small names");
            l.out
        }
        2 => {
            let b = plain_body(s, 2, false);
            let mut l = Lay::new(s);
            l.document(s, &b);
            l.out
        }
        _ => gen::doc(s).1.out,
    };
    c.show = t.clone();
    c.nontrivial_if(parse_str(&t).is_ok());
    every_doc(&t);
    Ok(())
}

fn c21_expression(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut sh = gen::shape(s);
    sh.obj_expr_keys = true;
    let d = s.range(0, sh.depth);
    let e = gen::expr(s, &sh, d);
    let t = text_of(s, &e);
    c.show = t.clone();
    c.nontrivial_if(matches!(e, MExpr::Tuple(_) | MExpr::Object(_)));
    let x = Expression::parse(&t).map_err(|e| disp(&e))?;
    into::<Dyn>(x.clone());
    into::<Vec<Dyn>>(x.clone());
    into::<Vec<Vec<Dyn>>>(x.clone());
    into::<BTreeMap<String, Dyn>>(x.clone());
    into::<BTreeMap<String, BTreeMap<String, Dyn>>>(x.clone());
    into::<HashMap<Choice2, Dyn>>(x.clone());
    into::<HashMap<u8, Dyn>>(x.clone());
    into::<TwoFields>(x.clone());
    into::<Defaulted>(x.clone());
    into::<Choice>(x.clone());
    into::<Untagged>(x.clone());
    into::<Flat>(x.clone());
    into::<Odd>(x.clone());
    into::<Nested>(x.clone());
    into::<Strict>(x.clone());
    into::<(Dyn, u8)>(x.clone());
    into::<[u8; 4]>(x.clone());
    into::<&str>(x.clone());
    into::<u128>(x.clone());
    into::<Top>(x.clone());
    ensure!(into::<IgnoredAny>(x).is_some(), "IgnoredAny failed");
    Ok(())
}

#[derive(De, Debug, PartialEq)]
struct Known {
    known: i64,
    #[serde(default)]
    part: Vec<KnownPart>,
}
#[derive(De, Debug, PartialEq)]
struct KnownPart {
    x: String,
    y: Option<KnownObj>,
}
#[derive(De, Debug, PartialEq)]
struct KnownObj {
    z: bool,
}

/// content the target type does not know: any legal elements with fresh names
pub fn unknown(s: &mut Src, n: usize, tag: &str) -> MBody {
    let mut out = vec![];
    for i in 0..n {
        let sh = gen::shape(s);
        if s.bool() {
            let d = s.range(0, 3);
            out.push(MElem::Attr(format!("{}_{}{}", gen::ident(s), tag, i), gen::expr(s, &sh, d)));
        } else {
            let nl = s.len(3);
            let labels = (0..nl).map(|_| gen::label(s)).collect();
            let ty = if s.bool() { format!("other_{}", tag) } else { format!("{}_{}_{}", gen::ident(s), tag, i) };
            let d = s.range(0, 2);
            out.push(MElem::Block(MBlock { ty, labels, body: gen::body(s, &sh, d) }));
        }
    }
    out
}

fn c21_ignored(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let known = s.u64() as i64;
    let parts = s.len(3);
    let mut want = Known { known, part: vec![] };
    let mut groups: Vec<Vec<MElem>> = vec![vec![attr("known", int(known))]];
    let mut blocks = vec![];
    let mut more = 0;
    for _ in 0..parts {
        let x = gen::text(s, 4);
        let y = if s.bool() { Some(KnownObj { z: s.bool() }) } else { None };
        let n = s.len(2);
        more += n;
        let mut g: Vec<Vec<MElem>> = vec![vec![attr("x", MExpr::Str(x.clone()))], unknown(s, n, "p")];
        if let Some(o) = &y {
            let mut v: Vec<(MKey, MExpr)> = vec![(MKey::Ident("z".into()), MExpr::Bool(o.z))];
            for i in 0..s.len(2) {
                let sh = gen::shape(s);
                let d = s.range(0, 2);
                let j = s.below(v.len() + 1);
                v.insert(j, (MKey::Ident(format!("u{}", i)), gen::expr(s, &sh, d)));
            }
            let e = attr("y", MExpr::Object(v));
            g.push(vec![e]);
        }
        blocks.push(blk("part", weave(s, g)));
        want.part.push(KnownPart { x, y });
    }
    groups.push(blocks);
    let n = s.len(4);
    more += n;
    groups.push(unknown(s, n, "t"));
    c.nontrivial_if(more > 0);
    let b = weave(s, groups);
    let mut l = Lay::new(s);
    l.document(s, &b);
    c.show = l.out.clone();
    let got: Known = from_str(&l.out).map_err(|e| format!("unknown content made it fail: {}", clip(&e.to_string(), 300)))?;
    same("known part", &got, &want)
}
