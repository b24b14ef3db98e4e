//! C13: KeyValuePairs and OneOrMany against Vec and BTreeMap.
use super::*;
use crate::ensure;
use ferrous_chloride::{KeyValuePairs, OneOrMany};
use std::collections::{BTreeMap, HashMap};

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C13",
        vec![
            check("key-values", 80_000, 2_000_000, "at least two pairs have the same key and at least one operation adds pairs", key_values),
            check("key-values-text", 40_000, 1_000_000, "at least two pairs have the same key", key_values_text),
            check("one-or-many", 60_000, 1_000_000, "many, with at least two elements", one_or_many),
        ],
    )]
}

/// the iterator yields `want` in that order, and says how many are left at every step
fn exact<T: PartialEq + std::fmt::Debug, I: Iterator<Item = T>>(what: &str, mut it: I, want: &[T]) -> CaseResult {
    for i in 0..=want.len() {
        let left = want.len() - i;
        same(&format!("{}: size hint with {} left", what, left), &it.size_hint(), &(left, Some(left)))?;
        same(&format!("{}: element {}", what, i), &it.next().as_ref(), &want.get(i))?;
    }
    // past the end it stays there
    same(&format!("{}: size hint past the end", what), &it.size_hint(), &(0, Some(0)))?;
    ensure!(it.next().is_none(), "{}: an element past the end", what);
    Ok(())
}

/// like `exact`, in any order
fn exact_any<T: Ord + std::fmt::Debug, I: Iterator<Item = T>>(what: &str, mut it: I, mut want: Vec<T>) -> CaseResult {
    let mut got = vec![];
    for i in 0..=want.len() {
        let left = want.len() - i;
        same(&format!("{}: size hint with {} left", what, left), &it.size_hint(), &(left, Some(left)))?;
        match it.next() {
            Some(x) => got.push(x),
            None => break,
        }
    }
    got.sort();
    want.sort();
    same(&format!("{}: elements", what), &got, &want)?;
    same(&format!("{}: size hint at the end", what), &it.size_hint(), &(0, Some(0)))
}

/// `len` agrees with what is left, taken at every step
fn lens<T, I: ExactSizeIterator<Item = T>>(what: &str, mut it: I, n: usize) -> CaseResult {
    for left in (0..=n).rev() {
        same(&format!("{}: len", what), &it.len(), &left)?;
        ensure!(it.next().is_some() == (left > 0), "{}: next disagrees with len {}", what, left);
    }
    same(&format!("{}: len at the end", what), &it.len(), &0)
}

/// the adapters that a caller uses on the iterator agree with the list, also on what is left after some steps
pub fn adapters<T: PartialEq + std::fmt::Debug + Clone, I: Iterator<Item = T>, F: Fn() -> I>(s: &mut Src, what: &str, f: F, want: &[T]) -> CaseResult {
    let mut it = f();
    let mut left = want.to_vec().into_iter();
    let mut done = String::new();
    for _ in 0..s.below(5) {
        let k = s.range(0, want.len() + 1).min(6);
        let (name, got, exp): (&str, Vec<T>, Vec<T>) = match s.below(5) {
            0 => ("next", it.next().into_iter().collect(), left.next().into_iter().collect()),
            1 | 2 => ("nth", it.nth(k).into_iter().collect(), left.nth(k).into_iter().collect()),
            3 => ("take", it.by_ref().take(k).collect(), left.by_ref().take(k).collect()),
            _ => {
                let mut n = k;
                let mut stop = |_: &T| {
                    n = n.wrapping_sub(1);
                    n == 0
                };
                let a = it.find(&mut stop).into_iter().collect();
                let mut n = k;
                let b = left
                    .find(|_| {
                        n = n.wrapping_sub(1);
                        n == 0
                    })
                    .into_iter()
                    .collect();
                ("find", a, b)
            }
        };
        done.push_str(&format!(".{}({})", name, k));
        same(&format!("{}{}", what, done), &got, &exp)?;
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left.len() && hi.map_or(true, |h| h >= left.len()), "{}{}: size hint {:?} with {} left", what, done, (lo, hi), left.len());
    }
    let k = s.range(1, 3);
    let rest: Vec<T> = left.collect();
    let at = |n: &str| format!("{}{}.{}", what, done, n);
    match s.below(8) {
        0 => same(&at("count"), &it.count(), &rest.len()),
        1 => same(&at("last"), &it.last().as_ref(), &rest.last()),
        2 => same(&at("skip"), &it.skip(k).collect(), &rest.iter().skip(k).cloned().collect::<Vec<_>>()),
        3 => {
            let v: Vec<T> = it.fold(vec![], |mut v, x| {
                v.push(x);
                v
            });
            same(&at("fold"), &v, &rest)
        }
        4 => same(&at("step_by"), &it.step_by(k).collect(), &rest.iter().step_by(k).cloned().collect::<Vec<_>>()),
        5 => {
            let mut v = vec![];
            it.for_each(|x| v.push(x));
            same(&at("for_each"), &v, &rest)
        }
        6 => {
            let mut n = 0;
            let all = it.all(|_| {
                n += 1;
                true
            });
            same(&at("all"), &(all, n), &(true, rest.len()))
        }
        _ => same(&at("collect"), &it.collect(), &rest),
    }
}

type K = u8;
type V = u32;

fn pairs(s: &mut Src, id: &mut u32, max: usize) -> Vec<(K, V)> {
    let n = s.len(max);
    (0..n)
        .map(|_| {
            *id += 1;
            // values repeat at times, too
            (s.below(5) as u8, if s.chance(1, 5) { s.below(3) as u32 } else { 100 + *id })
        })
        .collect()
}

fn check_unmerged(s: &mut Src, c: &KeyValuePairs<K, V>, m: &[(K, V)]) -> CaseResult {
    same("len", &c.len(), &m.len())?;
    same("is_empty", &c.is_empty(), &m.is_empty())?;
    let refs: Vec<(&K, &V)> = m.iter().map(|(k, v)| (k, v)).collect();
    exact("iter", c.iter(), &refs)?;
    exact("into_iter of &", c.into_iter(), &refs)?;
    exact("into_iter", c.clone().into_iter(), m)?;
    lens("iter", c.iter(), m.len())?;
    lens("into_iter", c.clone().into_iter(), m.len())?;
    let ks: Vec<&K> = m.iter().map(|(k, _)| k).collect();
    let vs: Vec<&V> = m.iter().map(|(_, v)| v).collect();
    exact("keys", c.keys(), &ks)?;
    exact("values", c.values(), &vs)?;
    adapters(s, "iter", || c.iter(), &refs)?;
    adapters(s, "into_iter", || c.clone().into_iter(), m)?;
    adapters(s, "keys", || c.keys(), &ks)?;
    adapters(s, "values", || c.values(), &vs)?;
    for k in 0..6u8 {
        let all: Vec<&V> = m.iter().filter(|(x, _)| *x == k).map(|(_, v)| v).collect();
        same("get_single", &c.get_single(&k), &all.first().copied())?;
        match c.get(&k) {
            None => ensure!(all.is_empty(), "get({}) found nothing, {} are there", k, all.len()),
            Some(g) => {
                ensure!(!all.is_empty(), "get({}) found something", k);
                ensure!(g.is_many() && !g.is_one(), "get({}) of an unmerged collection is not many", k);
                same("get: len", &g.len(), &all.len())?;
                exact("get: iter", g.iter(), &all.iter().collect::<Vec<_>>())?;
                same("get: all", &g.unwrap_many(), &all)?;
            }
        }
        let ix = guard(|| c[&k]).ok();
        same("index", &ix.as_ref(), &all.first().copied())?;
    }
    same("unwrap_unmerged", &c.clone().unwrap_unmerged(), &m.to_vec())?;
    ensure!(guard(|| c.clone().unwrap_merged()).is_err(), "unwrap_merged of an unmerged collection returned");
    Ok(())
}

fn check_merged(s: &mut Src, c: &KeyValuePairs<K, V>, m: &BTreeMap<K, V>) -> CaseResult {
    same("len", &c.len(), &m.len())?;
    same("is_empty", &c.is_empty(), &m.is_empty())?;
    exact_any("iter", c.iter(), m.iter().collect())?;
    exact_any("into_iter of &", c.into_iter(), m.iter().collect())?;
    exact_any("into_iter", c.clone().into_iter(), m.iter().map(|(k, v)| (*k, *v)).collect())?;
    lens("iter", c.iter(), m.len())?;
    lens("into_iter", c.clone().into_iter(), m.len())?;
    exact_any("keys", c.keys(), m.keys().collect())?;
    exact_any("values", c.values(), m.values().collect())?;
    // iteration orders of one unchanged map agree with each other
    let order: Vec<(&K, &V)> = c.iter().collect();
    exact("keys in order", c.keys(), &order.iter().map(|(k, _)| *k).collect::<Vec<_>>())?;
    exact("values in order", c.values(), &order.iter().map(|(_, v)| *v).collect::<Vec<_>>())?;
    adapters(s, "iter", || c.iter(), &order)?;
    adapters(s, "keys", || c.keys(), &order.iter().map(|(k, _)| *k).collect::<Vec<_>>())?;
    for k in 0..6u8 {
        same("get_single", &c.get_single(&k), &m.get(&k))?;
        match c.get(&k) {
            None => ensure!(!m.contains_key(&k), "get({}) found nothing", k),
            Some(g) => {
                ensure!(g.is_one() && !g.is_many() && g.len() == 1 && !g.is_empty(), "get({}) of a merged collection is not one", k);
                exact("get: iter", g.iter(), &m.get(&k).iter().collect::<Vec<_>>())?;
                same("get: the one", &Some(g.unwrap_one()), &m.get(&k))?;
            }
        }
        let ix = guard(|| c[&k]).ok();
        same("index", &ix.as_ref(), &m.get(&k))?;
    }
    let h: BTreeMap<K, V> = c.clone().unwrap_merged().into_iter().collect();
    same("unwrap_merged", &h, m)?;
    ensure!(guard(|| c.clone().unwrap_unmerged()).is_err(), "unwrap_unmerged of a merged collection returned");
    Ok(())
}

fn key_values(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let mut id = 0;
    let start = pairs(s, &mut id, 8);
    let more: Vec<Vec<(K, V)>> = (0..s.len(4)).map(|_| pairs(s, &mut id, 6)).collect();
    cx.show = format!("{:?} then {:?}", start, more);
    let all: Vec<(K, V)> = start.iter().chain(more.iter().flatten()).copied().collect();
    cx.nontrivial = all.len() >= 2
        && more.iter().any(|m| !m.is_empty())
        && (0..all.len()).any(|i| all[i + 1..].iter().any(|(k, _)| *k == all[i].0));
    let mut u = KeyValuePairs::Unmerged(start.clone());
    let mut um = start.clone();
    let mut g = KeyValuePairs::Merged(start.iter().copied().collect::<HashMap<_, _>>());
    let mut gm: BTreeMap<K, V> = start.iter().copied().collect();
    check_unmerged(s, &u, &um)?;
    check_merged(s, &g, &gm)?;
    for m in &more {
        if s.bool() {
            u.extend(m.clone());
            g.extend(m.clone());
        } else {
            // from an iterator that does not know its length
            u.extend(m.iter().copied().filter(|_| true));
            g.extend(m.iter().copied().filter(|_| true));
        }
        um.extend(m.iter().copied());
        gm.extend(m.iter().copied());
        check_unmerged(s, &u, &um)?;
        check_merged(s, &g, &gm)?;
    }
    same("the same pairs, equal", &u, &KeyValuePairs::Unmerged(um.clone()))?;
    same("the same map, equal", &g, &KeyValuePairs::Merged(gm.clone().into_iter().collect()))?;
    if um.len() >= 2 {
        let mut w = um.clone();
        let i = s.below(w.len());
        w[i].1 += 1;
        ensure!(u != KeyValuePairs::Unmerged(w), "collections with different values are equal");
        let mut w = um.clone();
        w.pop();
        ensure!(u != KeyValuePairs::Unmerged(w), "collections of different lengths are equal");
    }
    Ok(())
}

/// text keys looked up through another type than the key's own
fn key_values_text(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let n = s.len(8);
    let mut ps: Vec<(String, usize)> = vec![];
    for i in 0..n {
        let k = s.pick(&["", "a", "A", "b", "é", "e\u{301}", "a b"]).to_string();
        ps.push((k, i));
    }
    cx.show = format!("{:?}", ps);
    cx.nontrivial = (0..n).any(|i| ps[i + 1..].iter().any(|(k, _)| *k == ps[i].0));
    let u = KeyValuePairs::Unmerged(ps.clone());
    let m = KeyValuePairs::Merged(ps.iter().cloned().collect::<HashMap<_, _>>());
    for k in ["", "a", "A", "b", "é", "e\u{301}", "a b", "zz"] {
        let all: Vec<&usize> = ps.iter().filter(|(x, _)| x == k).map(|(_, v)| v).collect();
        same("unmerged get_single", &u.get_single(k), &all.first().copied())?;
        same("unmerged get", &u.get(k), &if all.is_empty() { None } else { Some(OneOrMany::Many(all.clone())) })?;
        same("unmerged index", &guard(|| u[k]).ok().as_ref(), &all.first().copied())?;
        same("merged get_single", &m.get_single(k), &all.last().copied())?;
        same("merged get", &m.get(k), &all.last().map(|v| OneOrMany::One(*v)))?;
        same("merged index", &guard(|| m[k]).ok().as_ref(), &all.last().copied())?;
        same("by owned text", &u.get_single(&k.to_string()), &all.first().copied())?;
    }
    Ok(())
}

fn one_or_many(s: &mut Src, cx: &mut Ctx) -> CaseResult {
    let many = s.chance(3, 4);
    let xs: Vec<u32> = if many {
        let n = s.len(20);
        (0..n).map(|_| s.below(5) as u32).collect()
    } else {
        vec![s.below(5) as u32]
    };
    cx.show = format!("{} {:?}", if many { "many" } else { "one" }, xs);
    cx.nontrivial = many && xs.len() >= 2;
    let c = if many { OneOrMany::Many(xs.clone()) } else { OneOrMany::One(xs[0]) };
    same("len", &c.len(), &xs.len())?;
    same("is_empty", &c.is_empty(), &xs.is_empty())?;
    same("is_many", &c.is_many(), &many)?;
    same("is_one", &c.is_one(), &!many)?;
    let refs: Vec<&u32> = xs.iter().collect();
    exact("iter", c.iter(), &refs)?;
    exact("into_iter of &", (&c).into_iter(), &refs)?;
    exact("into_iter", c.clone().into_iter(), &xs)?;
    lens("iter", c.iter(), xs.len())?;
    lens("into_iter", c.clone().into_iter(), xs.len())?;
    adapters(s, "iter", || c.iter(), &refs)?;
    adapters(s, "into_iter", || c.clone().into_iter(), &xs)?;
    same("unwrap_many", &guard(|| c.clone().unwrap_many()).ok(), &if many { Some(xs.clone()) } else { None })?;
    same("unwrap_one", &guard(|| c.clone().unwrap_one()).ok(), &if many { None } else { Some(xs[0]) })?;
    same("equal to itself", &c, &c.clone())?;
    Ok(())
}
