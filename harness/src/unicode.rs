use crate::unicode_table::{CONT, START, UNSURE};
use std::cmp::Ordering;

fn inside(t: &[(u32, u32)], c: char) -> bool {
    let c = c as u32;
    t.binary_search_by(|(a, b)| {
        if c < *a {
            Ordering::Greater
        } else if c > *b {
            Ordering::Less
        } else {
            Ordering::Equal
        }
    })
    .is_ok()
}
pub fn id_start(c: char) -> bool {
    if c.is_ascii() {
        return c.is_ascii_alphabetic();
    }
    inside(START, c)
}
pub fn id_continue(c: char) -> bool {
    if c.is_ascii() {
        return c.is_ascii_alphanumeric() || c == '_';
    }
    inside(CONT, c)
}
/// assigned after the Unicode version the crate is pinned to: not judged
pub fn unsure(c: char) -> bool {
    !c.is_ascii() && inside(UNSURE, c)
}
pub fn nth_start(mut i: usize) -> char {
    nth(START, &mut i)
}
pub fn nth_cont(mut i: usize) -> char {
    nth(CONT, &mut i)
}
fn nth(t: &[(u32, u32)], i: &mut usize) -> char {
    let r = t[*i % t.len()];
    let off = (*i / t.len()) as u32 % (r.1 - r.0 + 1);
    char::from_u32(r.0 + off).unwrap()
}
