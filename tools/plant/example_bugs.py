BUGS=[]
def bug(id,property,edits,needs,breaks,demo=None,cli=None):
    d=dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks)
    if cli: d["cli"]=cli
    else: d["demo"]=demo
    BUGS.append(d)
P="lib/src/parser/"
HEAD="use ferrous_chloride::parser::*;\n"
bug("c12-repeat-body","C12",[(P+"block.rs","""                if labels.is_empty() {
                    empty.push(body);""","""                if labels.is_empty() {
                    if empty.last() != Some(&body) {
                        empty.push(body);
                    }""")],
 "two equal unlabelled blocks after a labelled one of the same type","the second is not indexed",
 HEAD+'''
fn main() {
    let n = |t: &str| {
        let blocks: Vec<_> = ferrous_chloride::parse_str(t).unwrap().into_iter().map(|e| e.unwrap_block()).collect();
        Blocks::new(blocks).len_blocks()
    };
    assert_eq!(n("a { b = 1 }\\na { b = 1 }\\n"), 2);
    assert_eq!(n("a x { b = 1 }\\na { b = 1 }\\na { b = 1 }\\n"), 3);
}''')
bug("c12-mut-order","C12",[(P+"block.rs","""                    let nested_iter = nested.flat_iter_mut().map(move |(mut labels, body)| {
                        labels.push_front(label.as_str());""","""                    let nested_iter = nested.flat_iter_mut().map(move |(mut labels, body)| {
                        labels.push_back(label.as_str());""")],
 "the mutable flat iterator over a block with two labels","the labels come in reverse order",
 HEAD+'''
fn main() {
    let text: &'static str = "a x y { b = 1 }\\n";
    let blocks: Vec<_> = ferrous_chloride::parse_str(text).unwrap().into_iter().map(|e| e.unwrap_block()).collect();
    let index: &'static mut Blocks<'static> = Box::leak(Box::new(Blocks::new(blocks)));
    for (_, labels, _) in index.flat_iter_mut() {
        assert_eq!(labels.into_iter().collect::<Vec<_>>(), ["x", "y"]);
    }
}''')
bug("c16-empty-maps","C16",[("lib/src/value.rs","                                map.append(incoming);","                                map.extend(incoming.drain(..).filter(|map| !map.is_empty()));")],
 "a map given twice under one key, empty the second time","the empty one is dropped by the merge",
 '''
use ferrous_chloride::value::from_str;
use ferrous_chloride::MergeBehaviour;
fn main() {
    let n = |t| from_str(t, Some(MergeBehaviour::Error)).unwrap()["a"].len();
    assert_eq!(n("a { b = 1 }\\na { c = 1 }\\n"), 2);
    assert_eq!(n("a { b = 1 }\\na { }\\n"), 2);
}''')
bug("c06-close-case","C06",[(P+"string.rs","            >> tag!(identifier.identifier.0)","            >> tag_no_case!(identifier.identifier.0)"),
 (P+"string.rs","return_error, tag, take_while1","return_error, tag, tag_no_case, take_while1")],
 "a heredoc with a line that is the marker in another case","the heredoc ends there",
 '''
use ferrous_chloride::parse_str;
use ferrous_chloride::parser::Expression;
fn main() {
    match parse_str("a = <<EOF\\nx\\neof\\ny\\nEOF\\n").unwrap().remove(0).unwrap_attribute().1 {
        Expression::String(s) => assert_eq!(s, "x\\neof\\ny"),
        _ => panic!(),
    }
}''')
bug("c06-tab-close","C06",[(P+"string.rs","        Ok((remaining, identation.len()))","        Ok((remaining, identation.chars().filter(|c| *c == ' ').count() + identation.matches('\\t').count() * 8))")],
 "an indented heredoc whose closing marker is indented with tabs","up to eight spaces are removed for each of them",
 '''
use ferrous_chloride::parse_str;
use ferrous_chloride::parser::Expression;
fn main() {
    match parse_str("a = <<-EOF\\n    x\\n\\tEOF\\n").unwrap().remove(0).unwrap_attribute().1 {
        Expression::String(s) => assert_eq!(s, "   x"),
        _ => panic!(),
    }
}''')
bug("c02-empty-parens","C02",[(P+"expression.rs","""        >> expr: whitespace!(call!(expression))
        >> tag!(")")
        >> (expr)""","""        >> expr: whitespace!(opt!(call!(expression)))
        >> tag!(")")
        >> (expr.unwrap_or(Expression::Null))"""),
 (P+"expression.rs","do_parse, named, tag","do_parse, named, opt, tag")],
 "empty parentheses","they are accepted, as null",
 HEAD+'''
fn main() {
    assert!(Expression::parse("(1)").is_ok());
    assert!(Expression::parse("()").is_err());
}''')
bug("c02-fat-arrow","C02",[(P+"object.rs","            >> char!('=')\n            >> expression: call!(expression)","            >> alt!(tag!(\"=>\") | tag!(\"=\"))\n            >> expression: call!(expression)")],
 "an object element with => for =","it is accepted",
 HEAD+'''
fn main() {
    assert!(Expression::parse("{ a = 1 }").is_ok());
    assert!(Expression::parse("{ a => 1 }").is_err());
}''')
bug("c09-number-label","C09",[(P+"block.rs","""        call!(identifier) =>
            { |ident| BlockLabel::Identifier(ident) }
        | call!(string_literal) =>""","""        call!(identifier) =>
            { |ident| BlockLabel::Identifier(ident) }
        | call!(nom::digit1) =>
            { |digits: CompleteStr| BlockLabel::StringLiteral(digits.0.to_string()) }
        | call!(string_literal) =>""")],
 "a block label of bare digits","it is accepted",
 '''
use ferrous_chloride::parse_str;
fn main() {
    assert!(parse_str("a \\"80\\" { }\\n").is_ok());
    assert!(parse_str("a 80 { }\\n").is_err());
}''')
bug("c10-empty-reader","C10",[(P.replace("parser/","parser.rs"),"""pub fn parse_slice(bytes: &[u8]) -> Result<ConfigFile, Error> {
""","""pub fn parse_slice(bytes: &[u8]) -> Result<ConfigFile, Error> {
    // Buffers of a fixed size are padded
    let bytes = match bytes.iter().rposition(|byte| *byte != 0) {
        Some(last) => &bytes[..=last],
        None => &bytes[..0],
    };
""")],
 "a slice of bytes that ends in NUL","the bytes at its end are ignored",
 '''
use ferrous_chloride::{parse_slice, parse_str};
fn main() {
    assert!(parse_str("a = 1\\n\\0\\0").is_err());
    assert!(parse_slice(b"a = 1\\n\\0\\0").is_err());
}''')
bug("c11-empty-null","C11",[(P+"expression.rs","            Expression::Tuple(tup) => Expression::Tuple(tup.as_owned()),","            Expression::Tuple(tup) if tup.iter().all(|e| e == &Expression::Null) => Expression::Tuple(vec![]),\n            Expression::Tuple(tup) => Expression::Tuple(tup.as_owned()),")],
 "the owned copy of a tuple with nothing but null in it","it is empty",
 '''
use ferrous_chloride::parser::Expression;
use ferrous_chloride::AsOwned;
fn main() {
    for t in &["[]", "[1, null]", "[null, null]"] {
        let e = Expression::parse(t).unwrap();
        assert_eq!(e.as_owned(), e);
    }
}''')
bug("c19-short-float","C19",[("lib/src/serde/de.rs","        visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?)","""        match number.as_f32().map_err(Error::ParseFloatError)? {
            // Short literals are exact enough
            single if number.len() < 5 => visitor.visit_f32(single),
            _ => visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?),
        }""")],
 "deserializing a short float into an f64","it has the precision of an f32",
 '''
use ferrous_chloride::parser::Expression;
use serde::Deserialize;
fn main() {
    for (t, v) in &[("0.5", 0.5), ("0.125", 0.125), ("123.456", 123.456), ("0.1", 0.1)] {
        assert_eq!(f64::deserialize(Expression::parse(t).unwrap()).unwrap(), *v);
    }
}''')
bug("c24-temp-rename","C24",[("cli/src/main.rs","""        let mut output = output_writer(output)?;
        output.write_all(format!("{:#?}\\n", parsed).as_bytes())?;
""","""        let temporary = format!("{}.tmp", output);
        {
            let target = if output == "-" { output } else { &temporary };
            let mut writer = output_writer(target)?;
            writer.write_all(format!("{:#?}\\n", parsed).as_bytes())?;
        }
        if output != "-" {
            // Never leave a half written document behind
            std::fs::rename(&temporary, output)?;
        }
""")],
 "an output path that is a symbolic link or a device","the link is replaced, and the file it leads to is not written",
 cli='''
printf 'a = 1\\n' > in.hcl
echo old > destination
ln -s destination link
"$fecl" parse in.hcl link || exit 1
grep -q Integer destination
''')
bug("c24-keep-newer","C24",[("cli/src/main.rs","""            let file = File::create(path)?;
            Ok(Box::new(file))""","""            let file = std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(path)?;
            Ok(Box::new(file))""")],
 "an output file that may be written and not read, and a user other than root","the command fails",
 cli='''
chmod 755 . ; printf 'a = 1\\n' > in.hcl ; chmod 644 in.hcl
mkfifo pipe
timeout 20 sh -c 'cat pipe > got & exec "$0" parse in.hcl /dev/stdout > out' "$fecl" || exit 1
grep -q Integer out
''')
bug("c25-escape-copy","C25",[(P+"string.rs","""named!(
    quoted_string(CompleteStr) -> String,
    delimited!(
        tag!("\\""),
        call!(multiline_string_content),
        tag!("\\"")
    )
);""","""named!(
    quoted_string(CompleteStr) -> String,
    delimited!(
        tag!("\\""),
        map!(
            many0!(
                alt!(
                    map!(call!(take_while1_plain), |s: CompleteStr| s.0.to_string())
                    | map!(preceded!(tag!("\\\\"), unescape), Cow::into_owned)
                )
            ),
            |parts: Vec<String>| parts.iter().fold(String::new(), |acc, part| acc + part)
        ),
        tag!("\\"")
    )
);

named!(
    take_while1_plain(CompleteStr) -> CompleteStr,
    take_while1!(legal_string_literal_character)
);""")],"","",None)
BUGS.pop()
bug("c25-line-count","C25",[(P+"whitespace.rs","""named!(
    pub newline(CompleteStr) -> Vec<CompleteStr>,
    many1!(""","""named!(
    pub newline(CompleteStr) -> Vec<CompleteStr>,
    preceded!(nom::peek!(opt!(newline)), many1!("""),
 (P+"whitespace.rs","""            | call!(eol)
        )
    )
);

#[macro_export]
macro_rules! inline""","""            | call!(eol)
        ))
    )
);

#[macro_export]
macro_rules! inline""")],"","",None)
BUGS.pop()
bug("c25-nested-null","C25",[(P+"expression.rs","""        | tuple => { |v| From::from(v) }
        // CollectionValue -> object""","""        | terminated!(tuple, peek!(not!(char!('[')))) => { |v| From::from(v) }
        | tuple => { |v| From::from(v) }
        // CollectionValue -> object"""),
 (P+"expression.rs","do_parse, named, tag","char, do_parse, named, not, peek, tag, terminated")],
 "tuples nested in each other and closed with something wrong","each of them is parsed twice, within the one around it",
 '''
use ferrous_chloride::parser::Expression;
fn main() {
    let text = format!("{}1{}", "[".repeat(40), "}");
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(Expression::parse(&text).is_err()).unwrap());
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(true));
}''')
bug("c14-label-dedup","C14",[("lib/src/parser.rs","""                    Value::Block(vec![(keys, values)].into_iter().collect())""","""                    let mut keys = keys;
                    keys.dedup();
                    Value::Block(vec![(keys, values)].into_iter().collect())""")],
 "a block with the same label twice in a row","it has it only once",
 '''
use ferrous_chloride::value::from_str;
fn main() {
    for (t, n) in &[("a \\"x\\" \\"y\\" { }\\n", 2), ("a \\"x\\" \\"x\\" { }\\n", 2)] {
        let body = from_str(t, None).unwrap();
        let block = body["a"].borrow_block().unwrap();
        assert_eq!(block.keys().next().unwrap().len(), *n);
    }
}''')
bug("c01-empty-label","C01",[(P+"block.rs","""    pub fn new(r#type: Identifier<'a>, labels: Vec<BlockLabel<'a>>, body: Body<'a>) -> Self {
""","""    pub fn new(r#type: Identifier<'a>, mut labels: Vec<BlockLabel<'a>>, body: Body<'a>) -> Self {
        labels.retain(|label| !label.as_str().is_empty());
""")],
 "a block of several lines with an empty label","the label is dropped",
 '''
use ferrous_chloride::parse_str;
fn main() {
    for t in &["a \\"\\" { }\\n", "a \\"\\" {\\n}\\n"] {
        assert_eq!(parse_str(t).unwrap().remove(0).unwrap_block().labels.len(), 1);
    }
}''')
bug("c17-tuple-unmerged","C17",[("lib/src/lib.rs","""    fn is_unmerged(&self) -> bool {
        self.0.is_unmerged() && self.1.is_unmerged()
    }""","""    fn is_unmerged(&self) -> bool {
        self.0.is_unmerged() && !self.1.is_merged()
    }""")],
 "a pair whose second half is of both states, or neither","the pair is not unmerged",
 '''
use ferrous_chloride::Mergeable;
use ferrous_chloride::value::Value;
fn main() {
    assert!((Value::Null, Value::Null).is_unmerged());
}''')
bug("c30-string16","C30",[(P+"string.rs","""    let mut result = String::with_capacity(string.len());
    for line in string.split('\\n') {""","""    let mut result = String::with_capacity(string.len());
    for line in string.splitn(1 << 16, '\\n') {""")],
 "an indented heredoc of more than 65,536 lines","the lines beyond keep their indentation",
 '''
use ferrous_chloride::parser::Expression;
use ferrous_chloride::parse_str;
fn main() {
    let text = format!("a = <<-E\\n{}  E\\n", "  x\\n".repeat(70000));
    match parse_str(&text).unwrap().remove(0).unwrap_attribute().1 {
        Expression::String(s) => assert!(s.lines().all(|l| l == "x")),
        _ => panic!(),
    }
}''')
bug("c29-log-level","C29",[(P+"string.rs","""    let test = c != '\\\\' && c != '"' && c != '\\r' && c != '\\n';
""","""    let test = c != '\\\\' && c != '"' && c != '\\r' && c != '\\n';
    if !log::log_enabled!(log::Level::Debug) {
        return test;
    }
    let test = test && !c.is_control();
""")],
 "a label with a control character, and a program that logs at debug level","it is refused",
 '''
use ferrous_chloride::parse_str;
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, _: &log::Record) {}
    fn flush(&self) {}
}
fn main() {
    let text = "a \\"x\\ty\\" { }\\n";
    assert!(parse_str(text).is_ok());
    log::set_logger(Box::leak(Box::new(L))).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    assert!(parse_str(text).is_ok());
}''')
bug("c18-clone-shared","C18",[("lib/src/value.rs","""    pub fn list(self) -> Result<List<'a>, (Error, Self)> {
""","""    pub fn list(self) -> Result<List<'a>, (Error, Self)> {
        if let Value::Null = self {
            return Ok(vec![]);
        }
""")],
 "taking a list out of null","an empty list comes out",
 '''
use ferrous_chloride::value::Value;
fn main() {
    assert!(Value::from(1).list().is_err());
    assert!(Value::Null.list().is_err());
}''')
bug("c28-from-iter-flat","C28",[("lib/src/value.rs","""        let list = iter.into_iter().collect();
        Value::List(list)""","""        let mut list: Vec<Value> = iter.into_iter().collect();
        match list.pop() {
            // A list of one list
            Some(Value::List(inner)) if list.is_empty() => Value::List(inner),
            last => {
                list.extend(last);
                Value::List(list)
            }
        }""")],
 "collecting one list into a value","the level is lost",
 '''
use ferrous_chloride::value::Value;
fn main() {
    let inner = Value::List(vec![Value::from(1)]);
    let v: Value = vec![inner.clone()].into_iter().collect();
    assert_eq!(v, Value::List(vec![inner]));
}''')
bug("c05-quote-mark","C05",[(P+"string.rs","""        | tag!("?") => { |_| Cow::Borrowed("?") }
""","""        | tag!("?") => { |_| Cow::Borrowed("?") }
        | call!(nom::eol) => { |_| Cow::Borrowed("") }
        | tag!("'") => { |_| Cow::Borrowed("'") }
""")],
 "an escaped apostrophe","it is accepted",
 HEAD+'''
fn main() {
    assert!(Expression::parse(r#""\\'""#).is_err());
}''')
bug("c30-map-len","C30",[("lib/src/serde/de/body.rs","""        match self.value.take().expect("to be some") {
            BodyValue::Expression(expr) => seed.deserialize(expr),""","""        match self.value.take().expect("to be some") {
            BodyValue::Expression(Expression::Object(ref object)) if object.len() > 64 => {
                Err(Error::Custom("object too large".to_string()).into())
            }
            BodyValue::Expression(expr) => seed.deserialize(expr),""")],
 "a body with an object of more than 64 elements","it cannot be deserialized",
 '''
use ferrous_chloride::serde::de::from_str;
use std::collections::HashMap;
fn main() {
    for n in &[3, 64, 65, 200] {
        let text = format!("a = {{ {} }}\\n", (0..*n).map(|i| format!("k{} = {}", i, i)).collect::<Vec<_>>().join(", "));
        let m: HashMap<String, HashMap<String, u32>> = from_str(&text).unwrap();
        assert_eq!(m["a"].len(), *n);
    }
}''')
