//! Generators of abstract documents and of legal layouts of them.
use crate::dict;
use crate::engine::Src;
use crate::model::*;
use crate::unicode;

pub const SIMPLE_NAMES: &[&str] = &["a", "b", "c", "foo", "bar", "x1", "_u", "a-b", "true", "null", "nullable", "false_", "truex", "for", "e5", "E", "_", "EOF", "u00", "z--", "null-"];

pub fn ident(s: &mut Src) -> String {
    match s.weighted(&[60, 25, 15, 3]) {
        0 if s.chance(1, 20) => alike(s),
        0 => s.pick(SIMPLE_NAMES).to_string(),
        3 => s.word().filter(|w| is_name(w)).unwrap_or("a").to_string(),
        1 => {
            let n = s.range(1, 6) + s.stretch(300);
            let mut o = String::new();
            for i in 0..n {
                let pool: &[u8] = if i == 0 { b"abcxyzABCXYZ_" } else { b"abcxyzABCXYZ_0123456789-" };
                o.push(*s.pick(pool) as char);
            }
            o
        }
        _ => {
            let n = s.range(1, 4);
            let mut o = String::new();
            for i in 0..n {
                let k = s.below(1 << 20);
                o.push(if i == 0 { unicode::nth_start(k) } else { unicode::nth_cont(k) });
            }
            o
        }
    }
}

fn is_name(w: &str) -> bool {
    let mut c = w.chars();
    c.next().map_or(false, unicode::id_start) && c.all(unicode::id_continue) && !w.chars().any(unicode::unsure)
}

/// few names, many collisions
pub fn small_name(s: &mut Src) -> String {
    if s.chance(1, 10) {
        return alike(s);
    }
    s.pick(&["a", "b", "c", "d"]).to_string()
}

/// names that some folding, trimming or normalisation would take for each other or for the few names
pub fn alike(s: &mut Src) -> String {
    s.pick(&["A", "B", "a_", "a-", "_a", "a0", "aa", "aA", "a_a", "a-a", "\u{e9}", "e\u{301}", "\u{c9}", "\u{ff41}", "\u{3b1}", "\u{430}", "\u{df}", "ss", "\u{131}", "i", "I", "k", "\u{212a}"]).to_string()
}

pub fn digits(s: &mut Src, lo: usize, hi: usize) -> String {
    let n = s.range(lo, hi);
    (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
}

/// integers near the limits of the native types
pub const BOUNDARY: &[&str] = &[
    "0", "1", "127", "128", "129", "255", "256", "32767", "32768", "32769", "65535", "65536", "2147483647", "2147483648", "2147483649",
    "4294967295", "4294967296", "9007199254740992", "9007199254740993", "9223372036854775807", "9223372036854775808", "9223372036854775809",
    "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728",
    "170141183460469231731687303715884105729", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
];

pub fn int_text(s: &mut Src) -> String {
    let sign = *s.pick(&["", "-", "+"]);
    let d = match s.weighted(&[50, 30, 15, 5, 3]) {
        4 => match &dict::get().numbers {
            n if n.is_empty() => digits(s, 1, 3),
            n => s.pick(n).wrapping_add(s.below(3) as u64).wrapping_sub(1).to_string(),
        },
        0 => digits(s, 1, 3),
        1 => s.pick(BOUNDARY).to_string(),
        2 => digits(s, 1, 22),
        _ => digits(s, 20, 60),
    };
    let z = if s.chance(1, 10) { "0".repeat(s.range(1, 3)) } else { String::new() };
    format!("{}{}{}", sign, z, d)
}

pub fn num_text(s: &mut Src) -> String {
    match s.weighted(&[50, 50]) {
        0 => int_text(s),
        _ => {
            let mut o = s.pick(&["", "-", "+"]).to_string();
            let hi = if s.chance(1, 10) { 40 } else { 6 };
            match s.below(3) {
                0 => {
                    o.push_str(&digits(s, 1, hi));
                    o.push('.');
                    o.push_str(&digits(s, 0, hi));
                }
                1 => {
                    o.push('.');
                    o.push_str(&digits(s, 1, hi));
                }
                _ => o.push_str(&digits(s, 1, hi)),
            }
            if s.bool() {
                o.push_str(s.pick(&["e", "E"]));
                o.push_str(s.pick(&["", "-", "+"]));
                let d = if s.chance(1, 10) { 5 } else { 2 };
                o.push_str(&digits(s, 1, d));
            }
            o
        }
    }
}

pub const CHARS: &[char] = &[
    'a', 'b', 'f', 'n', 'x', 'u', 'U', '0', '1', '7', '9', 'F', ' ', '"', '\\', '\n', '\t', '\r', '#', '/', '*', '$', '{', '}', '[', ']', '=', ',', '<', '-', '(', ')',
    '?', '\'', 'é', 'ß', '中', '😀', '\u{301}', '\u{0}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{7f}', '\u{ff}', '\u{100}', '\u{1ff}', '\u{2028}', '\u{feff}', '\u{d7ff}', '\u{e000}',
    '\u{ffff}', '\u{10000}', '\u{10ffff}', '%', '_', ';', '.', '+',
];

pub fn ch(s: &mut Src) -> char {
    match s.weighted(&[85, 15, 4]) {
        0 => *s.pick(CHARS),
        2 if !dict::get().chars.is_empty() => *s.pick(&dict::get().chars),
        _ => {
            let u = s.below(0x110000) as u32;
            char::from_u32(u).unwrap_or('y')
        }
    }
}

/// a long run of few different characters at a varying offset, so that every byte position comes to lie inside a character
pub fn long_text(s: &mut Src) -> String {
    let mut o = "x".repeat(s.below(40));
    let unit: String = (0..s.range(1, 3)).map(|_| *s.pick(&['é', '中', '😀', 'y', 'é', ' ', '\u{301}'])).collect();
    o.push_str(&unit.repeat(s.range(1, 60)));
    o
}

pub fn text(s: &mut Src, max: usize) -> String {
    match s.weighted(&[60, 25, 15, 1, 4]) {
        3 => long_text(s),
        4 => {
            // words of the program's own, alone or with something about them
            let mut o = String::new();
            for _ in 0..s.range(1, 2) {
                o.push_str(s.word().unwrap_or("x"));
                if s.chance(1, 3) {
                    o.push(ch(s));
                }
            }
            o
        }
        0 => {
            let n = s.len(max);
            (0..n).map(|_| ch(s)).collect()
        }
        1 => s.pick(&["", "foo", "a b", "# no comment", "// neither", "/* nor this */", "${x}", "%{if}", "EOF", "a\nEOF\nb", "{}", "[1,", "\"", "\\", "x = 1", "a\n\n b", "\r\n", "<<EOF\nx\nEOF\n"]).to_string(),
        _ => {
            // several lines
            let n = s.range(1, 4) + s.stretch(300);
            let mut o = String::new();
            for i in 0..n {
                if i > 0 {
                    o.push_str(s.pick(&["\n", "\n", "\r\n", "\n\n"]));
                }
                o.push_str(s.pick(&["", " ", "  x", "foo", "    deep", "\tt", "EOF", " EOF", "EOFX", "é", " é", "x EOF", "-", "\"q\"", "\\n", "# c", "   "]));
            }
            o
        }
    }
}

pub struct Shape {
    pub depth: usize,
    pub width: usize,
    pub obj_expr_keys: bool,
    pub old: bool,
}

pub fn shape(s: &Src) -> Shape {
    Shape { depth: 3 + s.size, width: 2 + 2 * s.size, obj_expr_keys: true, old: false }
}

pub fn expr(s: &mut Src, sh: &Shape, depth: usize) -> MExpr {
    let deep = s.stretch(40);
    let mut e = expr_here(s, sh, depth);
    for _ in 0..deep {
        e = if s.bool() { MExpr::Tuple(vec![e]) } else { MExpr::Object(vec![(MKey::Ident(ident(s)), e)]) };
    }
    e
}

fn expr_here(s: &mut Src, sh: &Shape, depth: usize) -> MExpr {
    let w: &[usize] = if depth == 0 { &[10, 10, 10, 20] } else { &[10, 15, 10, 20, 20, 20] };
    match s.weighted(w) {
        0 => MExpr::Null,
        1 => MExpr::Num(num_text(s)),
        2 => MExpr::Bool(s.bool()),
        3 => MExpr::Str(text(s, 12)),
        4 => {
            let n = s.len(sh.width);
            MExpr::Tuple((0..n).map(|_| expr(s, sh, depth - 1)).collect())
        }
        _ => {
            let n = s.len(sh.width);
            MExpr::Object((0..n).map(|_| (key(s, sh), expr(s, sh, depth - 1))).collect())
        }
    }
}

pub fn key(s: &mut Src, sh: &Shape) -> MKey {
    if sh.obj_expr_keys && s.chance(1, 4) {
        let e = match s.below(5) {
            0 | 1 => MExpr::Str(text(s, 5)),
            2 => MExpr::Num(num_text(s)),
            _ => expr(s, sh, 1),
        };
        let mut l = Lay::new(s);
        l.no_heredoc = true;
        match &e {
            MExpr::Null | MExpr::Bool(_) => {
                // must be parenthesised, else it is a name
                l.out.push('(');
                l.ws(s);
                l.expr(s, &e);
                l.ws(s);
                l.out.push(')');
            }
            _ => {
                l.expr_noparen_lead(s, &e);
            }
        }
        return MKey::Expr(l.out);
    }
    MKey::Ident(ident(s))
}

pub fn label(s: &mut Src) -> MLabel {
    if s.bool() {
        MLabel::Ident(ident(s))
    } else {
        let t = match s.below(3) {
            0 => s.pick(&["a", "b", "foo", "", "two words", "a.b/c"]).to_string(),
            _ => text(s, 6),
        };
        MLabel::Lit(t)
    }
}

pub fn body(s: &mut Src, sh: &Shape, depth: usize) -> MBody {
    let n = s.len(sh.width + 1);
    (0..n)
        .map(|_| {
            if depth > 0 && s.chance(2, 5) {
                let nl = s.len(3);
                MElem::Block(MBlock { ty: ident(s), labels: (0..nl).map(|_| label(s)).collect(), body: body(s, sh, depth - 1) })
            } else {
                MElem::Attr(ident(s), expr(s, sh, depth.max(1)))
            }
        })
        .collect()
}

// ------------------------------------------------------------------ layout

pub struct Lay {
    pub out: String,
    /// 0 LF, 1 CRLF, 2 mixed
    pub eol_style: usize,
    /// 0 plain, 1 some, 2 wild
    pub noise: usize,
    pub no_heredoc: bool,
    pub heredocs: usize,
    pub comments: usize,
    pub parens: usize,
    /// where the last heredoc ended: a line break has to follow directly
    hd_end: usize,
}

impl Lay {
    pub fn new(s: &mut Src) -> Self {
        let noise = s.weighted(&[40, 35, 25]);
        let eol_style = s.weighted(&[60, 25, 15]);
        Lay { out: String::new(), eol_style, noise, no_heredoc: false, heredocs: 0, comments: 0, parens: 0, hd_end: usize::MAX }
    }
    pub fn plain() -> Self {
        Lay { out: String::new(), eol_style: 0, noise: 0, no_heredoc: false, heredocs: 0, comments: 0, parens: 0, hd_end: usize::MAX }
    }
    pub fn p(&mut self, t: &str) {
        self.out.push_str(t)
    }
    pub fn eol(&mut self, s: &mut Src) {
        let t = match self.eol_style {
            0 => "\n",
            1 => "\r\n",
            _ => *s.pick(&["\n", "\r\n"]),
        };
        self.out.push_str(t);
    }
    fn comment_body(&mut self, s: &mut Src, line: bool) -> String {
        let t = match s.below(4) {
            0 => "c".to_string(),
            1 => s.pick(&["", " x = 1", "\"", "<<EOF", "{", "}", "/*", "#", "//", " */ ", "*", "/", "**", "é中😀", "\t", "[", "a { b = 1 }", "'", "\\"]).to_string(),
            2 => text(s, 6),
            _ => s.pick(&["\n", "a\nb", "\n# x\n", "\r\n", "\n}\n", "y = 2\n"]).to_string(),
        };
        if line {
            t.replace(['\r', '\n'], " ")
        } else {
            let probe = format!("{}*/", t);
            if probe.find("*/") == Some(t.len()) {
                t
            } else {
                t.replace('*', "+")
            }
        }
    }
    fn inline_comment(&mut self, s: &mut Src) {
        let b = self.comment_body(s, false);
        self.comments += 1;
        self.p("/*");
        self.p(&b);
        self.p("*/");
    }
    fn line_comment(&mut self, s: &mut Src) {
        let b = self.comment_body(s, true);
        self.comments += 1;
        let m = *s.pick(&["#", "//"]);
        self.p(m);
        self.p(&b);
        self.eol(s);
    }
    /// optional inline whitespace
    pub fn il(&mut self, s: &mut Src) {
        match self.noise {
            0 => {}
            1 => {
                if s.chance(1, 4) {
                    self.p(s.pick(&[" ", "\t", "  "]));
                }
            }
            _ => {
                let n = s.weighted(&[40, 30, 20, 10]);
                for _ in 0..n {
                    if s.chance(1, 3) {
                        self.inline_comment(s)
                    } else {
                        self.p(s.pick(&[" ", "\t", "   "]));
                        let more = s.stretch(300);
                        self.p(&" ".repeat(more));
                    }
                }
            }
        }
    }
    /// a space unless noisy
    pub fn sp(&mut self, s: &mut Src) {
        if self.noise == 0 {
            self.p(" ");
        } else {
            self.il(s);
        }
    }
    /// required inline separator
    fn gap(&mut self, s: &mut Src) {
        let before = self.out.len();
        self.il(s);
        if self.out.len() == before {
            self.p(" ");
        }
    }
    /// optional whitespace including line breaks
    pub fn ws(&mut self, s: &mut Src) {
        match self.noise {
            0 => {}
            1 => {
                if s.chance(1, 4) {
                    match s.below(3) {
                        0 => self.p(" "),
                        1 => self.eol(s),
                        _ => {
                            self.eol(s);
                            self.p("  ");
                        }
                    }
                }
            }
            _ => {
                let n = s.weighted(&[40, 30, 20, 10]);
                for _ in 0..n {
                    match s.below(6) {
                        0 => self.p(" "),
                        1 => {
                            for _ in 0..=s.stretch(300) {
                                self.eol(s);
                            }
                        }
                        2 => self.p("\t "),
                        3 => self.inline_comment(s),
                        4 => self.line_comment(s),
                        _ => {
                            self.eol(s);
                            self.p("   ");
                        }
                    }
                }
            }
        }
    }
    /// required line break after an element (inline space before it already written)
    pub fn nl(&mut self, s: &mut Src) {
        if self.out.len() != self.hd_end && self.noise == 2 && s.chance(1, 3) {
            self.line_comment(s);
        } else {
            self.eol(s);
        }
        self.ws(s);
    }

    pub fn quoted(&mut self, s: &mut Src, t: &str, multiline: bool) {
        let chars: Vec<char> = t.chars().collect();
        // from the end, because short numeric escapes depend on what follows
        let mut parts: Vec<String> = vec![];
        let mut next: Option<char> = None;
        for &c in chars.iter().rev() {
            let r = encode_char(s, c, next, multiline);
            next = r.chars().next();
            parts.push(r);
        }
        self.p("\"");
        for x in parts.iter().rev() {
            self.p(x);
        }
        self.p("\"");
    }

    /// try to render as heredoc; the caller must follow it by a line break
    pub fn heredoc(&mut self, s: &mut Src, t: &str) -> bool {
        if t.contains('\r') {
            // only as part of CRLF line ends
            if t.replace("\r\n", "").contains('\r') || t.ends_with('\r') {
                return false;
            }
        }
        let id = s.pick(&["EOF", "E", "A1", "_x", "été", "EO"]).to_string();
        let strip = |l: &str| l.trim_end_matches('\r').trim_start_matches([' ', '\t']).to_string();
        if t.split('\n').any(|l| strip(l) == id) {
            return false;
        }
        self.heredocs += 1;
        let indented = s.bool();
        let ind = if indented || s.chance(1, 4) { s.below(5) } else { 0 };
        self.p("<<");
        if indented {
            self.p("-");
        }
        self.p(&id);
        self.eol(s);
        if t.is_empty() && s.bool() {
            // no content line at all
        } else {
            for (i, line) in t.split('\n').enumerate() {
                if i > 0 {
                    self.p("\n");
                }
                if indented {
                    // a line not starting with a space may be indented less than the marker
                    let k = if line.starts_with(' ') || !s.chance(1, 3) { ind } else { s.below(ind + 1) };
                    self.p(&" ".repeat(k));
                }
                self.p(line);
            }
            // a content ending in '\r'-less text may be closed by either line end
            self.eol(s);
        }
        self.p(&" ".repeat(ind));
        self.p(&id);
        self.hd_end = self.out.len();
        true
    }

    /// writes an expression; returns true if it ended in a heredoc (needs a line break next)
    pub fn expr(&mut self, s: &mut Src, e: &MExpr) -> bool {
        if self.noise > 0 && s.chance(1, 12) {
            self.parens += 1;
            self.p("(");
            self.ws(s);
            let h = self.expr(s, e);
            if h {
                self.eol(s);
            }
            self.ws(s);
            self.p(")");
            return false;
        }
        self.expr_noparen_lead(s, e)
    }

    pub fn expr_noparen_lead(&mut self, s: &mut Src, e: &MExpr) -> bool {
        match e {
            MExpr::Null => self.p("null"),
            MExpr::Bool(b) => self.p(if *b { "true" } else { "false" }),
            MExpr::Num(t) => self.p(t),
            MExpr::Str(t) => {
                if !self.no_heredoc && s.chance(2, 5) && self.heredoc(s, t) {
                    return true;
                }
                self.quoted(s, t, true);
            }
            MExpr::Tuple(v) => {
                self.p("[");
                self.ws(s);
                for (i, x) in v.iter().enumerate() {
                    let h = self.expr(s, x);
                    if h {
                        self.eol(s);
                    }
                    self.ws(s);
                    if i + 1 < v.len() {
                        self.p(",");
                        if self.noise == 0 {
                            self.p(" ");
                        }
                        self.ws(s);
                    } else if s.chance(1, 4) {
                        self.p(",");
                        self.ws(s);
                    }
                }
                self.p("]");
            }
            MExpr::Object(v) => {
                self.p("{");
                self.ws(s);
                for (i, (k, x)) in v.iter().enumerate() {
                    match k {
                        MKey::Ident(k) => self.p(k),
                        MKey::Expr(k) => self.p(k),
                    }
                    self.sp(s);
                    self.p("=");
                    self.sp(s);
                    let h = self.expr(s, x);
                    let last = i + 1 == v.len();
                    if h {
                        self.nl(s);
                    } else {
                        self.il(s);
                        match s.below(if last { 3 } else { 2 }) {
                            0 => {
                                self.p(",");
                                self.ws(s);
                            }
                            1 => self.nl(s),
                            _ => {}
                        }
                    }
                }
                self.p("}");
            }
        }
        false
    }

    pub fn label(&mut self, s: &mut Src, l: &MLabel) {
        match l {
            MLabel::Ident(t) => self.p(t),
            MLabel::Lit(t) => self.quoted(s, t, false),
        }
    }

    pub fn head(&mut self, s: &mut Src, b: &MBlock) {
        self.p(&b.ty);
        let mut prev_bare = true;
        for l in &b.labels {
            let bare = matches!(l, MLabel::Ident(_));
            if prev_bare && bare {
                self.gap(s);
            } else {
                self.sp(s);
            }
            self.label(s, l);
            prev_bare = bare;
        }
        self.sp(s);
        self.p("{");
    }

    /// writes the element; true if it ended in a heredoc
    pub fn elem(&mut self, s: &mut Src, e: &MElem) -> bool {
        match e {
            MElem::Attr(k, v) => {
                self.p(k);
                self.sp(s);
                self.p("=");
                self.sp(s);
                self.expr(s, v)
            }
            MElem::Block(b) => {
                let mark = self.out.len();
                self.head(s, b);
                let simple = match b.body.as_slice() {
                    [] => true,
                    [MElem::Attr(..)] => true,
                    _ => false,
                };
                if simple && s.chance(2, 5) {
                    self.sp(s);
                    let mut h = false;
                    if let Some(e) = b.body.first() {
                        h = self.elem(s, e);
                        self.sp(s);
                    }
                    if !h {
                        self.p("}");
                        return false;
                    }
                    // a heredoc cannot close a one-line block: start over
                    self.out.truncate(mark);
                    self.head(s, b);
                }
                self.il(s);
                self.nl(s);
                for e in &b.body {
                    self.il(s);
                    let h = self.elem(s, e);
                    if !h {
                        self.il(s);
                    }
                    self.nl(s);
                }
                self.il(s);
                self.p("}");
                false
            }
        }
    }

    pub fn document(&mut self, s: &mut Src, b: &MBody) {
        self.ws(s);
        for (i, e) in b.iter().enumerate() {
            self.il(s);
            let h = self.elem(s, e);
            if !h {
                self.il(s);
            }
            if h || i + 1 < b.len() || !s.chance(1, 3) {
                self.nl(s);
            }
        }
    }
}

pub fn simple_escape(c: char) -> Option<&'static str> {
    Some(match c {
        '\x07' => "\\a",
        '\x08' => "\\b",
        '\x0c' => "\\f",
        '\n' => "\\n",
        '\r' => "\\r",
        '\t' => "\\t",
        '\x0b' => "\\v",
        '\\' => "\\\\",
        '"' => "\\\"",
        '?' => "\\?",
        _ => return None,
    })
}

fn encode_char(s: &mut Src, c: char, next: Option<char>, multiline: bool) -> String {
    let raw_ok = c != '"' && c != '\\' && (multiline || (c != '\n' && c != '\r'));
    let k = if raw_ok { s.weighted(&[80, 8, 4, 4, 4]) } else { s.range(1, 4) };
    let u = c as u32;
    let oct_follow = next.map_or(false, |n| n.is_digit(8));
    let hex_follow = next.map_or(false, |n| n.is_ascii_hexdigit());
    let fallback = |k: usize| -> String {
        let _ = k;
        if let Some(e) = simple_escape(c) {
            e.to_string()
        } else {
            format!("\\U{:08x}", u)
        }
    };
    match k {
        0 => c.to_string(),
        1 => fallback(1),
        2 => {
            // octal
            if u > 0o777 {
                return fallback(2);
            }
            let t = format!("{:o}", u);
            if t.len() < 3 && oct_follow || s.bool() {
                format!("\\{:03o}", u)
            } else {
                format!("\\{}", t)
            }
        }
        3 => {
            // \x or \u
            if u <= 0xff && s.bool() {
                let t = format!("{:x}", u);
                if t.len() < 2 && hex_follow || s.bool() {
                    format!("\\x{:02X}", u)
                } else {
                    format!("\\x{}", t)
                }
            } else if u <= 0xffff {
                let t = format!("{:x}", u);
                if t.len() < 4 && hex_follow || s.bool() {
                    format!("\\u{:04X}", u)
                } else {
                    format!("\\u{}", t)
                }
            } else {
                fallback(3)
            }
        }
        _ => {
            let t = format!("{:x}", u);
            if t.len() < 8 && hex_follow || s.bool() {
                format!("\\U{:08X}", u)
            } else {
                format!("\\U{}", t)
            }
        }
    }
}

/// A document with one legal layout of it.
pub fn doc(s: &mut Src) -> (MBody, Lay) {
    let sh = shape(s);
    let d = s.range(1, sh.depth);
    let b = body(s, &sh, d);
    let mut l = Lay::new(s);
    l.document(s, &b);
    (b, l)
}

// ------------------------------------------------------------------ mutation

pub const TOKENS: &[&str] = &[
    "{", "}", "[", "]", "(", ")", "=", ",", "\"", "\\", "\n", "\r\n", "\r", " ", "\t", "#", "//", "/*", "*/", "<<EOF\n", "<<-EOF\n", "EOF", "\nEOF\n", "<<", "-", "+", ".", "e", "0", "1", "9", "a", "b",
    "null", "true", "false", "_", "\\x", "\\u", "\\U", "\\8", "\\q", "\\7", "é", "😀", "${", "a = 1", "a = 1\n", "b {}", "b {\n}\n", "{ a = 1 }", "[1, 2]", ",,", "==", ":", ";", "'", "\u{0}", "\u{a0}", "\u{feff}", "\u{2028}",
    "\"x\"", "\"a\" {", "= {", "= [", "(\n", "1.", ".5", "1e", "1e5", "--", "\\ud800", "\\U00110000",
];

/// what other languages write, or this one in another version
pub const FOREIGN: &[&str] = &[
    "True", "False", "TRUE", "FALSE", "Null", "NULL", "nil", "none", "None", "yes", "no", "on", "off", "undefined", "inf", "nan", "NaN", "Infinity", "0x1F", "0X1f", "0b11", "0o17", "1_000", "1,000", "1e+5", "1E5", "1e-5", "1f", "1L", "1u8",
    "5%", "1.e5", "1..2", "+1", "++1", "-.5", "- 1", "<<~EOF\n", "<<'EOF'\n", "<<\"EOF\"\n", "<<<EOF\n", "<< EOF\n", "'a'", "`a`", "“a”", "«a»", "\"\"\"", "...", "?", "a ? b : c", "&&", "||", "!", "!a", "=>", ":=", "+=", "->", "a.b", "a[0]", "a.*.b", "f(1)",
    "for", "if", "else", "in", "%{", "$${", "\\'", "\\e", "\\0", "\\N", "\\u{41}", "\\x{41}", "\\cA", "\\/", "\\ ", "\\\n", "\u{c}", "\u{b}", "\u{85}", "\u{200b}", "\u{3000}", "\u{37e}", "\u{2029}", "；", "＝", "，", "１", "｛", "@", "$a", "&a", "*a", "~", "|", "^", "<", ">", "--", "-- a\n",
    "%", "<!-- a -->", "/* /* a */ */", "///", "#!", "\"a\" \"b\"", "\"a\" + \"b\"", "a = ", "= 1", "a: 1", "\"a\": 1", "a => 1", "[1 2]", "[,]", "{,}", "()", "{a}", "b = {}", "b a = 1", "b \"a\" = 1", "a b c {}",
];

fn token(s: &mut Src) -> &'static str {
    match s.below(12) {
        0 | 1 => s.word().unwrap_or("null"),
        2 | 3 => *s.pick(FOREIGN),
        _ => *s.pick(TOKENS),
    }
}

/// the word around a position
fn word_at(t: &str, i: usize) -> (usize, usize) {
    let part = |c: char| c.is_alphanumeric() || "_-.+".contains(c);
    let from = t[..i].char_indices().rev().take_while(|(_, c)| part(*c)).last().map_or(i, |(k, _)| k);
    let to = i + t[i..].chars().take_while(|c| part(*c)).map(char::len_utf8).sum::<usize>();
    (from, to)
}

/// the case of a letter, of the first one, of all
fn recase(s: &mut Src, w: &str) -> String {
    let flip = |c: char| -> String {
        if c.is_lowercase() {
            c.to_uppercase().collect()
        } else {
            c.to_lowercase().collect()
        }
    };
    match s.below(4) {
        0 => w.to_uppercase(),
        1 => w.to_lowercase(),
        2 => w.chars().enumerate().map(|(i, c)| if i == 0 { flip(c) } else { c.to_string() }).collect(),
        _ => {
            let n = s.below(w.chars().count().max(1));
            w.chars().enumerate().map(|(i, c)| if i == n { flip(c) } else { c.to_string() }).collect()
        }
    }
}

fn boundary(s: &mut Src, t: &str) -> usize {
    if t.is_empty() {
        return 0;
    }
    let mut i = s.below(t.len() + 1);
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// one random edit
pub fn edit(s: &mut Src, t: &mut String, other: Option<&str>) {
    match s.below(10) {
        0 | 1 => {
            let i = boundary(s, t);
            let tok = token(s);
            t.insert_str(i, tok);
        }
        2 | 3 => {
            // delete a char
            let i = boundary(s, t);
            if i < t.len() {
                t.remove(i);
            }
        }
        4 => {
            // delete a span
            let i = boundary(s, t);
            let j = boundary(s, t);
            let (i, j) = (i.min(j), i.max(j));
            let mut j = j.min(i + 12);
            while !t.is_char_boundary(j) {
                j -= 1;
            }
            if j > i {
                t.replace_range(i..j, "");
            }
        }
        5 => {
            // replace a char by a token
            let i = boundary(s, t);
            if i < t.len() {
                t.remove(i);
            }
            let tok = token(s);
            t.insert_str(i, tok);
        }
        6 => {
            // duplicate or move a span
            let i = boundary(s, t);
            let j = boundary(s, t);
            let (i, j) = (i.min(j), i.max(j));
            let mut j = j.min(i + 30);
            while !t.is_char_boundary(j) {
                j -= 1;
            }
            let span = t[i.min(j)..j].to_string();
            let k = boundary(s, t);
            t.insert_str(k, &span);
        }
        7 => {
            // replace a whole word
            let i = boundary(s, t);
            let (from, to) = word_at(t, i);
            let tok = token(s);
            t.replace_range(from..to, tok);
        }
        8 => {
            let i = boundary(s, t);
            let (from, to) = word_at(t, i);
            let w = recase(s, &t[from..to]);
            t.replace_range(from..to, &w);
        }
        _ => match other {
            Some(o) => {
                let i = boundary(s, o);
                let k = boundary(s, t);
                let tail = o[i..].to_string();
                t.truncate(k);
                t.push_str(&tail);
            }
            None => {
                // truncate
                let k = boundary(s, t);
                t.truncate(k);
            }
        },
    }
}

/// text out of grammar tokens only
pub fn soup(s: &mut Src) -> String {
    let n = s.len(14);
    let mut o = String::new();
    for _ in 0..n {
        let tok = token(s);
        o.push_str(tok);
        if s.chance(1, 3) {
            o.push(' ');
        }
    }
    o
}
