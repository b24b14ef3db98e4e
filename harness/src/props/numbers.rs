//! C07 C08: number literals, conversions and comparison.
use super::syntax::disp;
use super::*;
use crate::ensure;
use crate::gen::{self, *};
use ferrous_chloride::parser::number::{number, Number};
use ferrous_chloride::parser::{parse_str, Expression};
use ferrous_chloride::AsOwned;
use nom::types::CompleteStr;
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C07",
            vec![
                check("literal", 80_000, 2_500_000, "number literal: text, kind flags and all twelve conversions against exact decimal arithmetic; non-trivial: at least 2 characters", c07_literal),
                check("boundary", 60_000, 1_500_000, "integers within 2 of the limit of a native type, with signs and leading zeros; all count", c07_boundary),
                check("rounding", 40_000, 1_200_000, "decimal expansions at, just below and just above the midpoint of two neighbouring floats; all count", c07_rounding),
            ],
        ),
        prop(
            "C08",
            vec![
                check("related", 100_000, 3_000_000, "pairs of literals that are equal, negated, adjacent or unrelated: equality against exact arithmetic, both ways; non-trivial: texts differ", c08_related),
                check("native", 100_000, 3_000_000, "native integers and finite floats through From, back, and against the parsed decimal text; all count", c08_native),
            ],
        ),
    ]
}

// ------------------------------------------------------------------ exact arithmetic

/// little-endian base 2^32
#[derive(Clone, Debug)]
struct Big(Vec<u32>);

impl Big {
    fn from_digits(d: &str) -> Big {
        let mut b = Big(vec![]);
        for c in d.bytes() {
            b.mul_add(10, (c - b'0') as u32);
        }
        b
    }
    fn from_u64(x: u64) -> Big {
        let mut b = Big(vec![x as u32, (x >> 32) as u32]);
        b.trim();
        b
    }
    fn trim(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    fn mul_add(&mut self, m: u32, a: u32) {
        let mut carry = a as u64;
        for x in self.0.iter_mut() {
            let v = *x as u64 * m as u64 + carry;
            *x = v as u32;
            carry = v >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
        self.trim();
    }
    fn pow10(&mut self, n: usize) {
        for _ in 0..n / 9 {
            self.mul_add(1_000_000_000, 0);
        }
        for _ in 0..n % 9 {
            self.mul_add(10, 0);
        }
    }
    fn shl(&mut self, n: usize) {
        if self.0.is_empty() {
            return;
        }
        self.mul_add(1 << (n % 32), 0);
        let mut z = vec![0u32; n / 32];
        z.append(&mut self.0);
        self.0 = z;
    }
    fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    /// decimal digits
    fn show(&self) -> String {
        let mut b = self.clone();
        let mut out = vec![];
        while !b.0.is_empty() {
            let mut r = 0u64;
            for x in b.0.iter_mut().rev() {
                let v = (r << 32) | *x as u64;
                *x = (v / 10) as u32;
                r = v % 10;
            }
            b.trim();
            out.push(b'0' + r as u8);
        }
        out.reverse();
        String::from_utf8(out).unwrap()
    }
}

/// sign, digits without leading zeros, exponent of ten (saturated)
#[derive(Clone, Debug)]
pub struct Dec {
    neg: bool,
    digits: String,
    exp: i64,
}

pub fn dec(t: &str) -> Dec {
    let (neg, r) = match t.as_bytes()[0] {
        b'-' => (true, &t[1..]),
        b'+' => (false, &t[1..]),
        _ => (false, t),
    };
    let (m, e) = match r.find(['e', 'E']) {
        Some(i) => (&r[..i], &r[i + 1..]),
        None => (r, "0"),
    };
    let (w, f) = m.split_once('.').unwrap_or((m, ""));
    let (eneg, ed) = match e.as_bytes()[0] {
        b'-' => (true, &e[1..]),
        b'+' => (false, &e[1..]),
        _ => (false, e),
    };
    let mut x: i64 = 0;
    for c in ed.bytes() {
        x = (x * 10 + (c - b'0') as i64).min(1_000_000);
    }
    let x = if eneg { -x } else { x };
    let digits = format!("{}{}", w, f).trim_start_matches('0').to_string();
    Dec { neg, digits, exp: x - f.len() as i64 }
}

impl Dec {
    fn zero(&self) -> bool {
        self.digits.is_empty()
    }
}

/// |d| against m * 2^k
fn cmp_dec_bin(d: &Dec, m: u64, k: i64) -> Ordering {
    let mut a = Big::from_digits(&d.digits);
    let mut b = Big::from_u64(m);
    if d.exp >= 0 {
        a.pow10(d.exp as usize)
    } else {
        b.pow10((-d.exp) as usize)
    }
    if k >= 0 {
        b.shl(k as usize)
    } else {
        a.shl((-k) as usize)
    }
    a.cmp(&b)
}

/// is the magnitude m*2^k (m < 2^p, exponent at least emin; None for infinity) the correctly rounded |d|?
fn rounded(d: &Dec, v: Option<(u64, i64)>, p: u32, emin: i64, emax: i64) -> bool {
    let top = (1u64 << p) - 1;
    // far outside every range: no arithmetic needed
    let magnitude = d.digits.len() as i64 + d.exp;
    if d.zero() {
        return v.map_or(false, |x| x.0 == 0);
    }
    if magnitude > 400 {
        return v.is_none();
    }
    if magnitude < -400 {
        return v.map_or(false, |x| x.0 == 0);
    }
    match v {
        None => cmp_dec_bin(d, 2 * top + 1, emax - 1) != Ordering::Less,
        Some((m, k)) => {
            // upper midpoint (2m+1) * 2^(k-1)
            let up = cmp_dec_bin(d, 2 * m + 1, k - 1);
            let even = m % 2 == 0;
            if !(up == Ordering::Less || (up == Ordering::Equal && even && !(m == top && k == emax))) {
                return false;
            }
            if m == 0 {
                return true;
            }
            // lower midpoint: half a step, or a quarter where the exponent changes
            let lo = if m == 1u64 << (p - 1) && k > emin { cmp_dec_bin(d, 4 * m - 1, k - 2) } else { cmp_dec_bin(d, 2 * m - 1, k - 1) };
            lo == Ordering::Greater || (lo == Ordering::Equal && even)
        }
    }
}

fn f64_parts(f: f64) -> Option<(u64, i64)> {
    let b = f.abs().to_bits();
    let e = (b >> 52) as i64;
    let m = b & ((1 << 52) - 1);
    match e {
        0x7ff => None,
        0 => Some((m, -1074)),
        _ => Some((m | 1 << 52, e - 1075)),
    }
}

fn f32_parts(f: f32) -> Option<(u64, i64)> {
    let b = f.abs().to_bits();
    let e = (b >> 23) as i64;
    let m = (b & ((1 << 23) - 1)) as u64;
    match e {
        0xff => None,
        0 => Some((m, -149)),
        _ => Some((m | 1 << 23, e - 150)),
    }
}

pub fn f64_right(t: &str, f: f64) -> bool {
    let d = dec(t);
    !f.is_nan() && f.is_sign_negative() == d.neg && rounded(&d, f64_parts(f), 53, -1074, 971)
}

pub fn f32_right(t: &str, f: f32) -> bool {
    let d = dec(t);
    !f.is_nan() && f.is_sign_negative() == d.neg && rounded(&d, f32_parts(f), 24, -149, 104)
}

pub fn is_int(t: &str) -> bool {
    !t.contains(['.', 'e', 'E'])
}

/// canonical text of an integer literal: no plus, no leading zeros, no minus zero
pub fn canon(t: &str) -> String {
    let neg = t.starts_with('-');
    let d = t.trim_start_matches(['+', '-']).trim_start_matches('0');
    if d.is_empty() {
        "0".into()
    } else if neg {
        format!("-{}", d)
    } else {
        d.into()
    }
}

/// canonical integers
fn cmp_int(a: &str, b: &str) -> Ordering {
    let mag = |x: &str, y: &str| x.len().cmp(&y.len()).then(x.cmp(y));
    match (a.strip_prefix('-'), b.strip_prefix('-')) {
        (None, None) => mag(a, b),
        (Some(x), Some(y)) => mag(y, x),
        (Some(_), None) => Ordering::Less,
        (None, Some(_)) => Ordering::Greater,
    }
}

pub fn within(c: &str, lo: &str, hi: &str) -> bool {
    cmp_int(c, lo) != Ordering::Less && cmp_int(c, hi) != Ordering::Greater
}

/// the text of a number clearly different in value
pub fn distinct_from(t: &str) -> String {
    let v: f64 = t.parse().unwrap_or(0.0);
    if (v - 7.0).abs() > 0.5 {
        "7".into()
    } else {
        "9".into()
    }
}

// ------------------------------------------------------------------ C07

macro_rules! ints {
    ($n:expr, $t:expr, $($name:ident $ty:ident),*) => {{
        let c = canon($t);
        $(
            let inside = is_int($t) && within(&c, &$ty::MIN.to_string(), &$ty::MAX.to_string());
            let minus_zero = c == "0" && $t.starts_with('-') && $ty::MIN == 0;
            match $n.$name() {
                Ok(v) => {
                    ensure!(inside, "{} of {:?} gave {} although the literal is not in that type", stringify!($name), $t, v);
                    same(stringify!($name), &v.to_string(), &c)?;
                }
                Err(e) => ensure!(!inside || minus_zero, "{} of {:?} failed: {}", stringify!($name), $t, e),
            }
        )*
    }};
}

pub fn conversions(n: &Number, t: &str) -> CaseResult {
    same("text of the literal", &n.to_string(), &t.to_string())?;
    let int = is_int(t);
    ensure!(n.is_float() == !int, "is_float of {:?} is {}", t, n.is_float());
    ensure!(n.is_signed() == int, "is_signed of {:?} is {}", t, n.is_signed());
    ensure!(n.is_unsigned() == (int && !t.starts_with('-')), "is_unsigned of {:?} is {}", t, n.is_unsigned());
    ints!(n, t, as_u8 u8, as_u16 u16, as_u32 u32, as_u64 u64, as_u128 u128, as_i8 i8, as_i16 i16, as_i32 i32, as_i64 i64, as_i128 i128);
    match n.as_f64() {
        Ok(f) => ensure!(f64_right(t, f), "as_f64 of {:?} is {:e}", t, f),
        Err(e) => return Err(format!("as_f64 of {:?}: {}", t, e)),
    }
    match n.as_f32() {
        Ok(f) => ensure!(f32_right(t, f), "as_f32 of {:?} is {:e}", t, f),
        Err(e) => return Err(format!("as_f32 of {:?}: {}", t, e)),
    }
    Ok(())
}

fn everywhere(s: &mut Src, t: &str) -> CaseResult {
    match s.below(4) {
        0 => match number(CompleteStr(t)) {
            Ok((r, n)) => {
                ensure!(r.is_empty(), "number left {:?} of {:?}", r, t);
                conversions(&n, t)
            }
            Err(e) => Err(format!("{:?} rejected: {:?}", t, e)),
        },
        1 => match Expression::parse(t) {
            Ok(Expression::Number(n)) => {
                conversions(&n, t)?;
                conversions(&n.as_owned(), t)
            }
            x => Err(format!("{:?} parsed as {:?}", t, x.map(|e| e.variant_name()))),
        },
        2 => {
            let d = format!("a = {}\n", t);
            let b = parse_str(&d).map_err(|e| disp(&e))?;
            match b[0].clone().unwrap_attribute().1 {
                Expression::Number(n) => conversions(&n, t),
                x => Err(format!("{:?} parsed as {}", t, x.variant_name())),
            }
        }
        _ => {
            let d = format!("[{},{}]", t, t);
            match Expression::parse(&d).map_err(|e| disp(&e))? {
                Expression::Tuple(v) => {
                    ensure!(v.len() == 2, "{} elements in {:?}", v.len(), d);
                    v.iter().try_for_each(|x| match x {
                        Expression::Number(n) => conversions(n, t),
                        x => Err(format!("{:?} parsed as {}", t, x.variant_name())),
                    })
                }
                x => Err(format!("{:?} parsed as {}", d, x.variant_name())),
            }
        }
    }
}

fn c07_literal(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let t = gen::num_text(s);
    c.show = t.clone();
    c.nontrivial_if(t.len() >= 2);
    c.label(if is_int(&t) { "integer" } else { "float" });
    everywhere(s, &t)
}

fn c07_boundary(s: &mut Src, c: &mut Ctx) -> CaseResult {
    c.nontrivial = true;
    let bits = *s.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
    let mut b = Big::from_u64(1);
    b.shl(bits as usize);
    let d = s.range(0, 4) as i64 - 2;
    let mut digits = b.show();
    let n = dec_add(&digits, d);
    digits = n;
    let t = format!("{}{}{}", s.pick(&["", "-", "+"]), "0".repeat(if s.chance(1, 5) { s.range(1, 5) } else { 0 }), digits);
    c.show = t.clone();
    everywhere(s, &t)
}

/// decimal digits plus a small number
fn dec_add(d: &str, x: i64) -> String {
    let mut v: Vec<i64> = d.bytes().rev().map(|c| (c - b'0') as i64).collect();
    v[0] += x;
    for i in 0..v.len() {
        let c = v[i].div_euclid(10);
        v[i] = v[i].rem_euclid(10);
        if c != 0 {
            if i + 1 < v.len() {
                v[i + 1] += c
            } else {
                v.push(c);
                break;
            }
        }
    }
    v.iter().rev().map(|x| (b'0' + *x as u8) as char).collect()
}

/// exact decimal expansion of m * 2^k
fn expansion(m: u64, k: i64) -> (String, i64) {
    let mut b = Big::from_u64(m);
    if k >= 0 {
        b.shl(k as usize);
        (b.show(), 0)
    } else {
        for _ in 0..-k {
            b.mul_add(5, 0);
        }
        (b.show(), k)
    }
}

fn c07_rounding(s: &mut Src, c: &mut Ctx) -> CaseResult {
    c.nontrivial = true;
    let single = s.bool();
    let (m, k) = if single {
        let f = f32::from_bits(s.u64() as u32 & 0x7fff_ffff);
        f32_parts(f)
    } else {
        // moderate exponents keep the expansions short
        let e = if s.chance(1, 6) { *s.pick(&[1u64, 2, 3, 2045, 2046, 0]) } else { 1023 + 52 + s.range(0, 120) as u64 - 60 };
        f64_parts(f64::from_bits((e << 52) | (s.u64() >> 12)))
    }
    .unwrap_or((1, 0));
    // midpoint above, or the float itself
    let (m, k) = if s.chance(3, 4) { (2 * m + 1, k - 1) } else { (m, k) };
    let (digits, exp) = expansion(m, k);
    if digits.is_empty() || digits.len() > 1200 {
        c.discard = true;
        return Ok(());
    }
    let nudge = s.below(3);
    let (digits, exp) = match nudge {
        0 => (digits, exp),
        n => (dec_add(&format!("{}000", digits), if n == 1 { 1 } else { -1 }), exp - 3),
    };
    let sign = *s.pick(&["", "-", "+"]);
    let t = if s.bool() && exp < 0 && (-exp as usize) < digits.len() {
        let i = digits.len() - (-exp) as usize;
        format!("{}{}.{}", sign, &digits[..i], &digits[i..])
    } else {
        format!("{}{}e{}", sign, digits, exp)
    };
    c.show = t.clone();
    c.label(["exact", "above", "below"][nudge]);
    everywhere(s, &t)
}

// ------------------------------------------------------------------ C08

/// Some(equal) where the statement decides
fn equal(a: &str, b: &str) -> Option<bool> {
    if is_int(a) && is_int(b) {
        let (x, y) = (canon(a), canon(b));
        let lim = |c: &str| within(c, &i128::MIN.to_string(), &u128::MAX.to_string());
        if x == y && a == b {
            return Some(true);
        }
        if !lim(&x) || !lim(&y) {
            return None;
        }
        return Some(x == y);
    }
    let (x, y) = (a.parse::<f64>().ok()?, b.parse::<f64>().ok()?);
    if x == y {
        return Some(true);
    }
    if x.is_infinite() || y.is_infinite() || (x > 0.0) != (y > 0.0) || x == 0.0 || y == 0.0 {
        return Some(false);
    }
    if x.abs().max(y.abs()) < 1e-290 {
        // tiny numbers: no statement about neighbours, but a factor of two is a difference
        return if x.abs().max(y.abs()) >= 2.0 * x.abs().min(y.abs()) { Some(false) } else { None };
    }
    let rel = (x - y).abs() / x.abs().max(y.abs());
    if rel > 4.0 * f64::EPSILON {
        Some(false)
    } else {
        None
    }
}

/// another way of writing (nearly) the same number
fn relative(s: &mut Src, t: &str) -> String {
    let neg = t.starts_with('-');
    let body = t.trim_start_matches(['+', '-']).to_string();
    let int = is_int(t);
    match s.below(11) {
        0 => t.to_string(),
        1 => format!("{}{}", if neg { "-" } else { "+" }, body),
        2 => format!("{}{}", if neg { "" } else { "-" }, body),
        3 => format!("{}00{}", if neg { "-" } else { "" }, body),
        4 if int => format!("{}.0", t),
        5 if int => format!("{}e0", t),
        6 if int => format!("{}{}", if neg { "-" } else { "" }, dec_add(&format!("0{}", body), *s.pick(&[1i64, -1, 2]).max(if body.trim_start_matches('0').is_empty() { &0 } else { &-9 }))),
        7 => {
            // exponent shifted
            let d = dec(t);
            let k = s.range(0, 6) as i64;
            format!("{}{}{}e{}", if neg { "-" } else { "" }, if d.zero() { "0" } else { &d.digits }, "0".repeat(k as usize), d.exp - k)
        }
        8 => {
            let f: f64 = t.parse().unwrap_or(0.0);
            format!("{:e}", f64::from_bits(f.to_bits() + s.range(0, 40) as u64)).replace("inf", "1e999").replace("NaN", "0.0")
        }
        9 => {
            let f: f64 = t.parse().unwrap_or(0.0);
            let g = f * *s.pick(&[1.0 + 1e-9, 1.0 - 1e-12, 2.0, -1.0, 1.0 + 1e-14]);
            format!("{:e}", g).replace("inf", "1e999").replace("NaN", "0.0")
        }
        _ => gen::num_text(s),
    }
}

fn parsed(t: &str) -> Result<Number<'static>, String> {
    match Expression::parse(t).map_err(|e| format!("{:?}: {}", t, disp(&e)))? {
        Expression::Number(n) => Ok(n.as_owned()),
        x => Err(format!("{:?} parsed as {}", t, x.variant_name())),
    }
}

fn c08_related(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let a = gen::num_text(s);
    let mut b = relative(s, &a);
    if s.chance(1, 4) {
        b = relative(s, &b);
    }
    c.show = format!("{} and {}", a, b);
    c.nontrivial_if(a != b);
    let (x, y) = (parsed(&a)?, parsed(&b)?);
    ensure!(x == x && y == y, "a number is not equal to itself: {}", c.show);
    ensure!((x == y) == (y == x), "equality of {} depends on the side", c.show);
    ensure!((x != y) != (x == y), "== and != agree on {}", c.show);
    ensure!(x.clone() == x && x.as_owned() == x, "a copy of {} differs", a);
    match equal(&a, &b) {
        Some(w) => {
            c.label(if w { "equal" } else { "different" });
            ensure!((x == y) == w, "{} compare {}", c.show, if w { "unequal" } else { "equal" });
            ensure!((Expression::Number(x) == Expression::Number(y)) == w, "expressions {} compare {}", c.show, if w { "unequal" } else { "equal" });
        }
        None => c.label("undecided"),
    }
    Ok(())
}

macro_rules! native_int {
    ($s:expr, $c:expr, $ty:ident, $as:ident) => {{
        let raw = ($s.u64() as u128) << 64 | $s.u64() as u128;
        let v: $ty = match $s.below(4) {
            0 => *$s.pick(&[$ty::MIN, $ty::MAX, $ty::MIN + 1, $ty::MAX - 1, 0, 1]),
            1 => raw as $ty >> ($s.below($ty::BITS as usize)),
            2 => (0 as $ty).wrapping_sub(raw as $ty >> ($s.below($ty::BITS as usize))),
            _ => raw as $ty,
        };
        $c.show = format!("{}{}", v, stringify!($ty));
        let n = Number::from(v);
        same("back", &n.$as().map_err(|e| e.to_string())?, &v)?;
        conversions(&n, &v.to_string())?;
        let p = parsed(&v.to_string())?;
        ensure!(n == p && p == n, "{} differs from its parsed text", $c.show);
        ensure!(n == n && n.as_owned() == n, "not equal to itself or its copy");
        // inside an expression as well
        let e = Expression::from(v);
        ensure!(e == Expression::Number(p), "expression from {}", $c.show);
        // and against a neighbour
        let w = if v == $ty::MAX { v - 1 } else { v + 1 };
        let m = Number::from(w);
        ensure!(n != m && m != n, "{} equals {}", v, w);
        if v != 0 {
            let t = v.to_string();
            let flipped = match t.strip_prefix('-') {
                Some(x) => x.to_string(),
                None => format!("-{}", t),
            };
            let f = parsed(&flipped)?;
            ensure!(n != f && f != n, "{} equals {}", v, flipped);
        }
    }};
}

fn c08_native(s: &mut Src, c: &mut Ctx) -> CaseResult {
    c.nontrivial = true;
    match s.below(12) {
        0 => native_int!(s, c, i8, as_i8),
        1 => native_int!(s, c, i16, as_i16),
        2 => native_int!(s, c, i32, as_i32),
        3 => native_int!(s, c, i64, as_i64),
        4 => native_int!(s, c, i128, as_i128),
        5 => native_int!(s, c, u8, as_u8),
        6 => native_int!(s, c, u16, as_u16),
        7 => native_int!(s, c, u32, as_u32),
        8 => native_int!(s, c, u64, as_u64),
        9 => native_int!(s, c, u128, as_u128),
        10 => {
            let v = match s.below(3) {
                0 => *s.pick(&[0.0f64, -0.0, 1.0, -1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 0.1]),
                1 => s.below(100_000) as f64 / 64.0 - 700.0,
                _ => f64::from_bits(s.u64()),
            };
            if !v.is_finite() {
                c.discard = true;
                return Ok(());
            }
            c.show = format!("{:e}f64", v);
            let n = Number::from(v);
            same("back", &n.as_f64().map_err(|e| e.to_string())?.to_bits(), &v.to_bits())?;
            let p = parsed(&v.to_string())?;
            ensure!(n == p && p == n, "{} differs from its parsed text", c.show);
            ensure!(n == n && n.as_owned() == n, "not equal to itself or its copy");
            ensure!(Expression::from(v) == Expression::Number(p), "expression from {}", c.show);
            if v != 0.0 {
                let m = Number::from(-v);
                ensure!(n != m && m != n, "{} equals its negative", c.show);
                if v.abs() > 1e-300 && v.abs() < 1e300 {
                    let m = Number::from(v * 2.0);
                    ensure!(n != m && m != n, "{} equals its double", c.show);
                }
            }
        }
        _ => {
            let v = match s.below(3) {
                0 => *s.pick(&[0.0f32, -0.0, 1.0, -1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 0.1]),
                1 => s.below(100_000) as f32 / 64.0 - 700.0,
                _ => f32::from_bits(s.u64() as u32),
            };
            if !v.is_finite() {
                c.discard = true;
                return Ok(());
            }
            c.show = format!("{:e}f32", v);
            let n = Number::from(v);
            same("back", &n.as_f32().map_err(|e| e.to_string())?.to_bits(), &v.to_bits())?;
            let p = parsed(&v.to_string())?;
            ensure!(n == p && p == n, "{} differs from its parsed text", c.show);
            ensure!(n == n, "not equal to itself");
            ensure!(Expression::from(v) == Expression::Number(p), "expression from {}", c.show);
            if v != 0.0 {
                let m = Number::from(-v);
                ensure!(n != m && m != n, "{} equals its negative", c.show);
            }
        }
    }
    Ok(())
}
