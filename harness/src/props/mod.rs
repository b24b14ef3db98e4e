use crate::engine::*;

pub mod blocks;
pub mod cli;
pub mod containers;
pub mod errors;
pub mod history;
pub mod io;
pub mod lexical;
pub mod numbers;
pub mod schema;
pub mod serde_props;
pub mod size;
pub mod syntax;
pub mod values;
pub mod work;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(syntax::props());
    v.extend(lexical::props());
    v.extend(numbers::props());
    v.extend(io::props());
    v.extend(history::props());
    v.extend(blocks::props());
    v.extend(containers::props());
    v.extend(values::props());
    v.extend(serde_props::props());
    v.extend(cli::props());
    v.extend(work::props());
    v.extend(errors::props());
    v.extend(size::props());
    for p in &mut v {
        p.checks.extend(size::share(p.id));
    }
    v.sort_by_key(|p| p.id);
    v
}

/// equality with a readable difference
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> CaseResult {
    if got == want {
        return Ok(());
    }
    let (g, w) = (format!("{:?}", got), format!("{:?}", want));
    let i = g.char_indices().zip(w.chars()).take_while(|((_, a), b)| a == b).last().map_or(0, |((i, c), _)| i + c.len_utf8());
    let mut k = i.saturating_sub(60);
    while !g.is_char_boundary(k) {
        k -= 1;
    }
    let mut j = i.saturating_sub(60).min(w.len());
    while !w.is_char_boundary(j) {
        j -= 1;
    }
    Err(format!("{}: got …{} but expected …{}", what, clip(&g[k..], 400), clip(&w[j..], 400)))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

pub fn prop(id: &'static str, checks: Vec<Check>) -> Prop {
    Prop { id, checks, probes: vec![], assumptions: vec![] }
}

pub fn check(name: &'static str, quick: u64, thorough: u64, rule: &'static str, f: CaseFn) -> Check {
    Check { name, quick, thorough, rule, f }
}
