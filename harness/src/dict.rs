//! A dictionary for the generators: the literals of the library's own source, as fuzzers take one from the program under test.
//! It only adds candidates to what is generated; no check judges by it.
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub words: Vec<String>,
    pub chars: Vec<char>,
    pub numbers: Vec<u64>,
    /// those that could be thresholds of a size
    pub large: Vec<u64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

/// What `FCHECK_DICT` names, or nothing.
pub fn get() -> &'static Dict {
    DICT.get_or_init(|| std::env::var("FCHECK_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).map(|t| read(&t)).unwrap_or_default())
}

fn sources(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(r) = std::fs::read_dir(d) else { return };
    for e in r.flatten() {
        let p = e.path();
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

/// The dictionary of a checkout, as one line of text.
pub fn build(repo: &Path) -> String {
    let mut fs = vec![];
    sources(&repo.join("lib/src"), &mut fs);
    sources(&repo.join("cli/src"), &mut fs);
    let mut d = Dict::default();
    for f in fs {
        if let Ok(t) = std::fs::read_to_string(&f) {
            // tests come last in a file
            let t = t.split("#[cfg(test)]").next().unwrap_or("");
            literals(t, &mut d);
        }
    }
    d.words.retain(|w| !w.is_empty() && w.chars().count() <= 16 && !w.contains("{}") && !w.contains("{:"));
    d.words.sort();
    d.words.dedup();
    d.chars.sort();
    d.chars.dedup();
    d.numbers.sort();
    d.numbers.dedup();
    let hex = |s: &str| s.bytes().map(|b| format!("{:02x}", b)).collect::<String>();
    let mut o: Vec<String> = d.words.iter().map(|w| format!("w{}", hex(w))).collect();
    o.extend(d.chars.iter().map(|c| format!("c{:x}", *c as u32)));
    o.extend(d.numbers.iter().map(|n| format!("n{}", n)));
    o.join(" ")
}

pub fn read(t: &str) -> Dict {
    let mut d = Dict::default();
    for x in t.split_ascii_whitespace() {
        let (k, v) = x.split_at(1);
        match k {
            "w" => {
                let b: Option<Vec<u8>> = (0..v.len() / 2).map(|i| v.get(2 * i..2 * i + 2).and_then(|h| u8::from_str_radix(h, 16).ok())).collect();
                if let Some(w) = b.and_then(|b| String::from_utf8(b).ok()) {
                    d.words.push(w);
                }
            }
            "c" => d.chars.extend(u32::from_str_radix(v, 16).ok().and_then(char::from_u32)),
            _ => d.numbers.extend(v.parse::<u64>().ok()),
        }
    }
    d.large = d.numbers.iter().copied().filter(|n| (33..3000).contains(n)).collect();
    d
}

/// Reads an escape after the backslash at `i`; gives the character and the position after it.
fn escape(b: &[char], i: usize) -> Option<(char, usize)> {
    let c = *b.get(i)?;
    Some(match c {
        'n' => ('\n', i + 1),
        'r' => ('\r', i + 1),
        't' => ('\t', i + 1),
        '0' => ('\0', i + 1),
        'x' => {
            let h: String = b.get(i + 1..i + 3)?.iter().collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32)?, i + 3)
        }
        'u' => {
            let end = i + b[i..].iter().position(|c| *c == '}')?;
            let h: String = b.get(i + 2..end)?.iter().filter(|c| **c != '_').collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32)?, end + 1)
        }
        c => (c, i + 1),
    })
}

fn literals(t: &str, d: &mut Dict) {
    let b: Vec<char> = t.chars().collect();
    let at = |i: usize| b.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            '/' if at(i + 1) == '/' => {
                while i < b.len() && b[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < b.len() && !(b[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
            }
            'r' if (at(i + 1) == '"' || at(i + 1) == '#') && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) => {
                let mut h = 0;
                while at(i + 1 + h) == '#' {
                    h += 1;
                }
                i += 1 + h;
                if at(i) != '"' {
                    continue;
                }
                i += 1;
                let from = i;
                while i < b.len() && !(b[i] == '"' && (0..h).all(|k| at(i + 1 + k) == '#')) {
                    i += 1;
                }
                d.words.push(b[from..i.min(b.len())].iter().collect());
                i += 1 + h;
            }
            '"' => {
                i += 1;
                let mut w = String::new();
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' {
                        match escape(&b, i + 1) {
                            Some((c, n)) => {
                                w.push(c);
                                i = n;
                            }
                            None => i += 2,
                        }
                    } else {
                        w.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                d.words.push(w);
            }
            '\'' => {
                // a character, or else a lifetime
                if at(i + 1) == '\\' {
                    if let Some((c, n)) = escape(&b, i + 2) {
                        if at(n) == '\'' {
                            d.chars.push(c);
                        }
                        i = n + 1;
                        continue;
                    }
                } else if at(i + 2) == '\'' {
                    d.chars.push(at(i + 1));
                    i += 3;
                    continue;
                }
                i += 1;
            }
            c if c.is_ascii_digit() => {
                let mut w = String::new();
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                    if b[i] != '_' {
                        w.push(b[i]);
                    }
                    i += 1;
                }
                let n = match w.get(..2) {
                    Some("0x") => u64::from_str_radix(w[2..].trim_end_matches(|c: char| "uisz".contains(c)), 16).ok(),
                    _ => w.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok(),
                };
                d.numbers.extend(n);
                if let Some(c) = n.and_then(|n| u32::try_from(n).ok()).filter(|n| *n > 9).and_then(char::from_u32) {
                    d.chars.push(c);
                }
            }
            c if c.is_alphabetic() || c == '_' => {
                // a name, so that its digits are not taken for numbers
                let from = i;
                while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                    i += 1;
                }
                // b'x' and b"x" go on with the literal; r"x" was handled above
                let _ = from;
            }
            _ => i += 1,
        }
    }
}
