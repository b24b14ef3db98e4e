//! Abstract documents, and the reading of library trees into them.
use ferrous_chloride::parser::block::BlockLabel;
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::parser::{Attribute, Block, Body, Expression};
use ferrous_chloride::value::{MapValues, Value};
use ferrous_chloride::KeyValuePairs;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MExpr {
    Null,
    Num(String),
    Bool(bool),
    Str(String),
    Tuple(Vec<MExpr>),
    Object(Vec<(MKey, MExpr)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MKey {
    Ident(String),
    /// raw text of an expression used as key
    Expr(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MLabel {
    Ident(String),
    Lit(String),
}

impl MLabel {
    pub fn text(&self) -> &str {
        match self {
            MLabel::Ident(s) | MLabel::Lit(s) => s,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MElem {
    Attr(String, MExpr),
    Block(MBlock),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MBlock {
    pub ty: String,
    pub labels: Vec<MLabel>,
    pub body: MBody,
}

pub type MBody = Vec<MElem>;

pub fn read_key(k: &ObjectElementIdentifier) -> MKey {
    match k {
        ObjectElementIdentifier::Identifier(s) => MKey::Ident(s.to_string()),
        ObjectElementIdentifier::Expression(s) => MKey::Expr(s.to_string()),
    }
}

pub fn read_expr(e: &Expression) -> MExpr {
    match e {
        Expression::Null => MExpr::Null,
        Expression::Number(n) => MExpr::Num(n.to_string()),
        Expression::Boolean(b) => MExpr::Bool(*b),
        Expression::String(s) => MExpr::Str(s.to_string()),
        Expression::Tuple(t) => MExpr::Tuple(t.iter().map(read_expr).collect()),
        Expression::Object(o) => MExpr::Object(o.iter().map(|(k, v)| (read_key(k), read_expr(v))).collect()),
    }
}

pub fn read_label(l: &BlockLabel) -> MLabel {
    match l {
        BlockLabel::StringLiteral(s) => MLabel::Lit(s.to_string()),
        BlockLabel::Identifier(s) => MLabel::Ident(s.to_string()),
    }
}

pub fn read_attr(a: &Attribute) -> (String, MExpr) {
    (a.0.to_string(), read_expr(&a.1))
}

pub fn read_block(b: &Block) -> MBlock {
    MBlock { ty: b.r#type.to_string(), labels: b.labels.iter().map(read_label).collect(), body: read_body(&b.body) }
}

pub fn read_elem(e: &BodyElement) -> MElem {
    match e {
        BodyElement::Attribute(a) => {
            let (k, v) = read_attr(a);
            MElem::Attr(k, v)
        }
        BodyElement::Block(b) => MElem::Block(read_block(b)),
    }
}

pub fn read_body(b: &Body) -> MBody {
    b.iter().map(read_elem).collect()
}

pub fn expr_depth(e: &MExpr) -> usize {
    match e {
        MExpr::Tuple(t) => 1 + t.iter().map(expr_depth).max().unwrap_or(0),
        MExpr::Object(o) => 1 + o.iter().map(|(_, v)| expr_depth(v)).max().unwrap_or(0),
        _ => 1,
    }
}

pub fn body_depth(b: &MBody) -> usize {
    1 + b
        .iter()
        .map(|e| match e {
            MElem::Attr(_, v) => expr_depth(v),
            MElem::Block(b) => body_depth(&b.body),
        })
        .max()
        .unwrap_or(0)
}

pub fn expr_nodes(e: &MExpr) -> usize {
    1 + match e {
        MExpr::Tuple(t) => t.iter().map(expr_nodes).sum(),
        MExpr::Object(o) => o.iter().map(|(_, v)| expr_nodes(v)).sum(),
        _ => 0,
    }
}

pub fn body_nodes(b: &MBody) -> usize {
    b.iter()
        .map(|e| match e {
            MElem::Attr(_, v) => 1 + expr_nodes(v),
            MElem::Block(b) => 1 + b.labels.len() + body_nodes(&b.body),
        })
        .sum()
}

// ------------------------------------------------------------ value trees

pub trait Kv {
    type K;
    type V;
}
impl<K: std::hash::Hash + Eq, V> Kv for KeyValuePairs<K, V> {
    type K = K;
    type V = V;
}
/// The (otherwise unnameable) key type of value trees.
pub type Key<'a> = <MapValues<'a> as Kv>::K;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OKey {
    Ident(String),
    Str(String),
}

impl OKey {
    pub fn text(&self) -> &str {
        match self {
            OKey::Ident(s) | OKey::Str(s) => s,
        }
    }
    pub fn build(&self) -> Key<'static> {
        match self {
            OKey::Ident(s) => Key::new_identifier_owned(s.clone()),
            OKey::Str(s) => Key::new_string_owned(s.clone()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OVal {
    Null,
    Int(i64),
    /// bits
    Float(u64),
    Bool(bool),
    Str(String),
    List(Vec<OVal>),
    Object(Vec<OMap>),
    Block(OBlock),
}

/// merged flag + entries. Merged maps are read sorted by key text.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OMap {
    pub merged: bool,
    pub entries: Vec<(OKey, OVal)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OBlock {
    pub merged: bool,
    pub entries: Vec<(Vec<String>, OMap)>,
}

impl OMap {
    pub fn un(entries: Vec<(OKey, OVal)>) -> Self {
        OMap { merged: false, entries }
    }
}

pub fn read_okey(k: &Key) -> OKey {
    match k {
        Key::Identifier(s) => OKey::Ident(s.to_string()),
        Key::String(s) => OKey::Str(s.to_string()),
    }
}

pub fn read_val(v: &Value) -> OVal {
    match v {
        Value::Null => OVal::Null,
        Value::Integer(i) => OVal::Int(*i),
        Value::Float(f) => OVal::Float(f.to_bits()),
        Value::Boolean(b) => OVal::Bool(*b),
        Value::String(s) => OVal::Str(s.clone()),
        Value::List(l) => OVal::List(l.iter().map(read_val).collect()),
        Value::Object(l) => OVal::Object(l.iter().map(read_map).collect()),
        Value::Block(b) => OVal::Block(read_vblock(b)),
    }
}

pub fn read_map(m: &MapValues) -> OMap {
    match m {
        KeyValuePairs::Merged(h) => {
            let mut v: Vec<_> = h.iter().map(|(k, v)| (read_okey(k), read_val(v))).collect();
            v.sort_by(|a, b| (a.0.text(), &a.0).cmp(&(b.0.text(), &b.0)));
            OMap { merged: true, entries: v }
        }
        KeyValuePairs::Unmerged(h) => OMap { merged: false, entries: h.iter().map(|(k, v)| (read_okey(k), read_val(v))).collect() },
    }
}

pub fn read_vblock(b: &ferrous_chloride::value::Block) -> OBlock {
    match b {
        KeyValuePairs::Merged(h) => {
            let mut v: Vec<_> = h.iter().map(|(k, v)| (k.clone(), read_map(v))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            OBlock { merged: true, entries: v }
        }
        KeyValuePairs::Unmerged(h) => OBlock { merged: false, entries: h.iter().map(|(k, v)| (k.clone(), read_map(v))).collect() },
    }
}

pub fn build_val(v: &OVal) -> Value<'static> {
    match v {
        OVal::Null => Value::Null,
        OVal::Int(i) => Value::Integer(*i),
        OVal::Float(f) => Value::Float(f64::from_bits(*f)),
        OVal::Bool(b) => Value::Boolean(*b),
        OVal::Str(s) => Value::String(s.clone()),
        OVal::List(l) => Value::List(l.iter().map(build_val).collect()),
        OVal::Object(l) => Value::Object(l.iter().map(build_map).collect()),
        OVal::Block(b) => Value::Block(build_vblock(b)),
    }
}

pub fn build_map(m: &OMap) -> MapValues<'static> {
    if m.merged {
        KeyValuePairs::Merged(m.entries.iter().map(|(k, v)| (k.build(), build_val(v))).collect())
    } else {
        KeyValuePairs::Unmerged(m.entries.iter().map(|(k, v)| (k.build(), build_val(v))).collect())
    }
}

pub fn build_vblock(b: &OBlock) -> ferrous_chloride::value::Block<'static> {
    if b.merged {
        KeyValuePairs::Merged(b.entries.iter().map(|(k, v)| (k.clone(), build_map(v))).collect())
    } else {
        KeyValuePairs::Unmerged(b.entries.iter().map(|(k, v)| (k.clone(), build_map(v))).collect())
    }
}

pub fn oval_nodes(v: &OVal) -> usize {
    1 + match v {
        OVal::List(l) => l.iter().map(oval_nodes).sum(),
        OVal::Object(l) => l.iter().map(omap_nodes).sum(),
        OVal::Block(b) => b.entries.iter().map(|(k, m)| k.len() + omap_nodes(m)).sum(),
        _ => 0,
    }
}

pub fn omap_nodes(m: &OMap) -> usize {
    m.entries.iter().map(|(_, v)| 1 + oval_nodes(v)).sum()
}
