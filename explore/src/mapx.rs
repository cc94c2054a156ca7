//! BTreeMap: C11..C17, C19, C20 and the tree parts of C03 and C06.
use crate::rt::*;
use fallible_collections::btree::map::Entry;
use fallible_collections::btree::BTreeMap;
use fallible_collections::TryClone;
use std::collections::BTreeMap as M;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Map = BTreeMap<E, E>;
pub type Mod = M<u32, u32>;

pub fn full(h: &Map, m: &Mod) -> R {
    ensure!(h.len() == m.len(), "len {} instead of {}", h.len(), m.len());
    ensure!(h.is_empty() == m.is_empty(), "is_empty");
    let mut it = m.iter();
    let mut n = 0;
    for (k, v) in h.iter() {
        k.check(); v.check(); n += 1;
        let w = it.next();
        ensure!(w == Some((&k.v, &v.v)), "entry {} is ({}, {}) instead of {:?}", n - 1, k.v, v.v, w);
    }
    ensure!(n == m.len(), "iteration stopped after {} of {} entries", n, m.len());
    Ok(())
}
pub fn lookups(h: &Map, m: &Mod, keys: impl Iterator<Item = u32>) -> R {
    for k in keys {
        let w = m.get(&k).copied();
        ensure!(h.get(&k).map(|v| v.v) == w, "get({}) gave {:?} instead of {:?}", k, h.get(&k), w);
        ensure!(h.contains_key(&k) == w.is_some(), "contains_key({})", k);
    }
    Ok(())
}
#[cfg(feature = "inspect")]
pub fn inspect(h: &Map) -> R { h.verif_check() }
#[cfg(not(feature = "inspect"))]
pub fn inspect(_: &Map) -> R { Ok(()) }

pub const SHAPES: usize = 10;
pub const SIZES: &[usize] = &[0, 1, 2, 3, 5, 6, 10, 11, 12, 13, 17, 18, 23, 24, 30, 47, 71, 72, 100, 143, 144, 180, 300];
/// A map of about `n` entries with even keys, of a shape chosen by `shape`.
pub fn build(n: usize, shape: usize, seed: u64) -> (Map, Mod) {
    let mut h = Map::new();
    let mut m = Mod::new();
    let mut rng = Rng::new(seed * 64 + shape as u64 + 1);
    let ins = |h: &mut Map, m: &mut Mod, k: u32| { let r = h.try_insert(E::new(k), E::new(k * 3 + 1)); if r.is_ok() { m.insert(k, k * 3 + 1); } };
    let perm = |rng: &mut Rng, n: usize| { let mut p: Vec<u32> = (0..n as u32).collect(); for i in (1..n).rev() { let j = rng.below(i + 1); p.swap(i, j); } p };
    match shape {
        0 => for i in 0..n { ins(&mut h, &mut m, 2 * i as u32) },
        1 => for i in (0..n).rev() { ins(&mut h, &mut m, 2 * i as u32) },
        2 => for i in perm(&mut rng, n) { ins(&mut h, &mut m, 2 * i) },
        3 => { for i in 0..2 * n { ins(&mut h, &mut m, 2 * i as u32) } for i in 0..n { let k = 4 * i as u32; h.remove(&k); m.remove(&k); } }
        4 => { for i in perm(&mut rng, 3 * n) { ins(&mut h, &mut m, 2 * i) } for i in perm(&mut rng, 3 * n).into_iter().take(2 * n) { let k = 2 * i; h.remove(&k); m.remove(&k); } }
        5 => { let mut o = Map::new(); for i in 0..n { if i % 3 == 0 { ins(&mut o, &mut m, 2 * i as u32) } else { ins(&mut h, &mut m, 2 * i as u32) } } h.append(&mut o); }
        6 => { for i in 0..2 * n { ins(&mut h, &mut m, 2 * i as u32) } let k = 2 * n as u32; let o = h.split_off(&k).ok(); drop(o); m.split_off(&k); }
        7 => { for i in 0..2 * n { ins(&mut h, &mut m, 2 * i as u32) } let k = 2 * n as u32; if let Ok(o) = h.split_off(&k) { h = o; m = m.split_off(&k); } }
        8 => { for i in perm(&mut rng, n) { ins(&mut h, &mut m, 2 * i) } if let Ok(c) = h.try_clone() { h = c; } }
        _ => { for i in 0..3 * n { ins(&mut h, &mut m, 2 * i as u32) } for i in n..3 * n { let k = 2 * (if seed % 2 == 0 { i } else { 4 * n - 1 - i }) as u32; h.remove(&k); m.remove(&k); } }
    }
    (h, m)
}
pub fn shapes(cx: &mut Ctx, sizes: &[usize], f: impl Fn(&mut Ctx, usize, usize)) {
    for &n in sizes { for s in 0..SHAPES { if cx.out_of_time() { return; } f(cx, n, s); } }
}

// -------------------------------------------------------------------------------- C11 / C12
fn word(code: usize, base: usize, len: usize, what: &str) -> R {
    // an exhaustive word of operations on a tree that sits at the brink of splitting or merging
    let mut h = Map::new(); let mut m = Mod::new();
    for i in 0..base { let k = 4 * i as u32; let r = h.try_insert(E::new(k), E::new(k)).map_err(|_| "Err")?; ensure!(r.is_none(), "new key reported as present"); m.insert(k, k); }
    let mut c = code;
    let top = 4 * base as u32;
    for step in 0..len as u32 {
        let k = match c % 4 { 0 => 1, 1 => top / 2 + 1, 2 => top + 1, _ => top / 4 * 2 } + step % 2;
        match c / 4 % 3 {
            0 => { let r = h.try_insert(E::new(k), E::new(1000 + step)).map_err(|_| "Err")?; ensure!(r.map(|e| e.v) == m.insert(k, 1000 + step), "try_insert({}) returned the wrong value", k); }
            1 => { let r = h.remove(&k); ensure!(r.map(|e| e.v) == m.remove(&k), "remove({}) returned the wrong value", k); }
            _ => { let f = m.keys().next().copied(); if let Some(f) = f { let r = h.remove(&f); ensure!(r.map(|e| e.v) == m.remove(&f), "remove({}) returned the wrong value", f); } }
        }
        c /= 12;
        if what == "C12" { inspect(&h)?; } else { full(&h, &m)?; lookups(&h, &m, 0..top + 4)?; }
    }
    Ok(())
}
fn history(s: u64, what: &str) -> R {
    let mut rng = Rng::new(s);
    let keys = [8, 20, 60, 200, 600][rng.below(5)];
    let mut h = if rng.below(2) == 0 { Map::new() } else { Map::default() };
    let mut m = Mod::new();
    let phase = 20 + rng.below(200);
    let c12 = what == "C12";
    for step in 0..400usize {
        let grow = (step / phase) % 2 == 0;
        let k = if rng.below(5) == 0 { (step % keys) as u32 } else { rng.below(keys) as u32 };
        let v = rng.below(100000) as u32;
        match rng.below(if c12 { 24 } else { 20 }) {
            x if (x < 10) == grow || x == 19 => {
                let e = E::new(k); let id = e.id;
                let had = h.get_key_value(&k).map(|(q, _)| q.id);
                let r = h.try_insert(e, E::new(v)).map_err(|_| "Err")?;
                let w = m.insert(k, v);
                ensure!(r.as_ref().map(|e| e.v) == w, "try_insert({}) returned {:?} instead of {:?}", k, r, w);
                let now = h.get_key_value(&k).map(|(q, x)| (q.id, x.v));
                ensure!(now == Some((had.unwrap_or(id), v)), "get_key_value({}) after try_insert gave {:?}", k, now);
            }
            x if x < 15 => { let r = h.remove(&k).map(|e| { e.check(); e.v }); let w = m.remove(&k); ensure!(r == w, "remove({}) gave {:?} instead of {:?}", k, r, w); }
            15 | 16 => { let w = m.get_mut(&k); match (h.get_mut(&k), w) { (Some(a), Some(b)) => { ensure!(a.v == *b, "get_mut({}) gave {:?} instead of {}", k, a, b); a.v = v; *b = v; } (None, None) => {} (a, b) => return Err(format!("get_mut({}) gave {:?} instead of {:?}", k, a, b)) } }
            17 => { let r = catch_unwind(AssertUnwindSafe(|| h[&k].v)).ok(); ensure!(r == m.get(&k).copied(), "indexing by {} gave {:?}", k, r); }
            20 => { let c = k.min(keys as u32); if let Ok(mut o) = h.split_off(&c) { let mut mo = m.split_off(&c); inspect(&o)?; inspect(&h)?; if rng.below(2) == 0 { h.append(&mut o); m.append(&mut mo); inspect(&o)?; } else if rng.below(2) == 0 { o.append(&mut h); mo.append(&mut m); h = o; m = mo; } else if mo.len() > m.len() { h = o; m = mo; } } }
            21 => { let c = h.try_clone().map_err(|_| "Err")?; inspect(&c)?; if rng.below(2) == 0 { h = c; } }
            22 => { let mut o = Map::new(); let mut mo = Mod::new(); for i in 0..rng.below(60) as u32 { let k = (i * 7 + k) % keys as u32; o.try_insert(E::new(k), E::new(i)).map_err(|_| "Err")?; mo.insert(k, i); } h.append(&mut o); m.append(&mut mo); inspect(&o)?; }
            23 => { let af = rng.below(4) as i64; let (a, b) = (E::new(k), E::new(v)); if with_alloc_fail(af, || h.try_insert(a, b)).is_ok() { m.insert(k, v); } }
            _ => { if rng.below(40) == 0 { h.clear(); m.clear(); ensure!(h.is_empty() && h.len() == 0, "not empty after clear"); } else { lookups(&h, &m, k..k + 3)?; } }
        }
        if c12 { inspect(&h)?; ensure!(h.len() == m.len() || cfg!(not(feature = "inspect")), "length {} for {} entries", h.len(), m.len()); comparisons(&h, &m, k)?; }
        else { ensure!(h.len() == m.len(), "len {} instead of {}", h.len(), m.len()); if step % 16 == 0 { full(&h, &m)?; lookups(&h, &m, 0..keys as u32)?; } }
    }
    if !c12 { full(&h, &m)?; }
    Ok(())
}
/// A look-up makes at most 11 comparisons per level, and a tree of n entries whose inner nodes
/// have at least 5 children is at most 1 + log5(n / 2) + 1 levels deep.
fn comparisons(h: &Map, m: &Mod, k: u32) -> R {
    let n = m.len();
    let mut depth = 1; let mut reach = 1usize; // least number of entries of a tree of that depth
    loop { let next = reach * 5 + 4; let need = if depth == 1 { 9 } else { next }; if n < need { break; } depth += 1; reach = need; if depth > 12 { break; } }
    let probe = Probe(k);
    let b = cmps();
    let _ = h.get(&probe);
    let used = cmps() - b;
    ensure!(used <= 11 * (depth + 1), "a look-up in {} entries made {} comparisons", n, used);
    Ok(())
}
#[derive(PartialEq, Eq)]
struct Probe(u32);
thread_local! { static CMPS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
fn cmps() -> usize { CMPS.with(|c| c.get()) }
impl PartialOrd for Probe { fn partial_cmp(&self, o: &Probe) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Probe { fn cmp(&self, o: &Probe) -> std::cmp::Ordering { CMPS.with(|c| c.set(c.get() + 1)); self.0.cmp(&o.0) } }
impl std::borrow::Borrow<Probe> for E { fn borrow(&self) -> &Probe { self.check(); unsafe { &*(&self.v as *const u32 as *const Probe) } } }

pub fn c11(cx: &mut Ctx) {
    for base in [4usize, 10, 11, 12, 17, 23] { for code in (0..12usize.pow(3)).step_by(if cx.only.is_some() { 1 } else { 1 }) {
        cx.distinct += 1;
        cx.case(|| format!("word {} of 3 operations on {} entries", code, base), || word(code, base, 3, "C11"));
    } }
    for i in 0..cx.n(1500) { if cx.out_of_time() { return; } let s = cx.seed * 104729 + i; cx.distinct += 1; cx.case(|| format!("random history {}", s), || history(s, "C11")); }
    shapes(cx, SIZES, |cx, n, s| { cx.distinct += 1; cx.case(|| format!("remove everything from shape {} of {} entries", s, n), || {
        let (mut h, mut m) = build(n, s, 3);
        let mut keys: Vec<u32> = m.keys().copied().collect(); let mut rng = Rng::new(n as u64); for i in (1..keys.len()).rev() { let j = rng.below(i + 1); keys.swap(i, j); }
        lookups(&h, &m, 0..(2 * n + 3) as u32)?;
        for (i, k) in keys.iter().enumerate() { let r = h.remove(k).map(|e| e.v); ensure!(r == m.remove(k), "remove({}) gave {:?}", k, r); ensure!(h.len() == m.len(), "len"); if i % 7 == 0 { full(&h, &m)?; } }
        ensure!(h.is_empty(), "not empty"); h.try_insert(E::new(1), E::new(2)).map_err(|_| "Err")?; ensure!(h.get(&1u32).map(|e| e.v) == Some(2), "unusable after emptying"); Ok(()) }); });
}
pub fn c12(cx: &mut Ctx) {
    for base in [4usize, 10, 11, 12, 17, 23] { for code in 0..12usize.pow(3) { cx.distinct += 1; cx.case(|| format!("word {} of 3 operations on {} entries", code, base), || word(code, base, 3, "C12")); } }
    shapes(cx, SIZES, |cx, n, s| { cx.distinct += 2; cx.case(|| format!("shape {} of {} entries", s, n), || { let (h, m) = build(n, s, 5); inspect(&h)?; comparisons(&h, &m, 7)?; comparisons(&h, &m, 2 * n as u32) });
        for cut in cuts(n) { cx.distinct += 1; cx.case(|| format!("split shape {} of {} entries at {}, then rejoin", s, n, cut), || {
            let (mut h, m) = build(n, s, 5); let mut o = h.split_off(&cut).map_err(|_| "Err")?; inspect(&h)?; inspect(&o)?; comparisons(&o, &m, cut)?; comparisons(&h, &m, cut)?;
            let c = o.try_clone().map_err(|_| "Err")?; inspect(&c)?; drop(c); h.append(&mut o); inspect(&h)?; inspect(&o)?; Ok(()) }); } });
    for i in 0..cx.n(600) { if cx.out_of_time() { return; } let s = cx.seed * 15485863 + i; cx.distinct += 1; cx.case(|| format!("random history {}", s), || history(s, "C12")); }
}
fn cuts(n: usize) -> Vec<u32> { let m = 2 * n as u32 + 2; if n <= 24 { (0..=m).collect() } else { (0..=m).step_by(m as usize / 23).chain([1, 2, 3, 21, 22, 23, 24, 25, m - 2, m - 1, m]).collect() } }

// -------------------------------------------------------------------------------- C13
fn pattern(p: usize, i: usize, rng: &mut Rng) -> bool { match p { 0 => true, 1 => false, 2 => i % 2 == 0, 3 => i % 3 == 0, 4 => rng.below(2) == 0, _ => (p >> (i + 8)) & 1 == 0 } }
macro_rules! drive { ($it:expr, $want:expr, $p:expr, $proj:expr, $exact:expr) => {{
    let mut it = $it; let want: &Vec<_> = $want; let (mut a, mut b) = (0usize, want.len()); let mut rng = Rng::new($p as u64 + 17); let mut i = 0;
    loop {
        if $exact { ensure!(it.size_hint() == (b - a, Some(b - a)), "size_hint {:?} with {} items left", it.size_hint(), b - a); }
        let front = pattern($p, i, &mut rng); i += 1;
        let got = if front { it.next().map($proj) } else { it.next_back().map($proj) };
        let w = if a < b { if front { a += 1; Some(want[a - 1]) } else { b -= 1; Some(want[b]) } } else { None };
        ensure!(got == w, "step {} ({}) gave {:?} instead of {:?}", i - 1, if front { "next" } else { "next_back" }, got, w);
        if w.is_none() { break; }
    }
    ensure!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), "an exhausted iterator yields again");
}} }
pub fn c13(cx: &mut Ctx) {
    let one = |n: usize, s: usize, p: usize| -> R {
        let (mut h, mut m) = build(n, s, 7);
        let kv: Vec<(u32, u32)> = m.iter().map(|(a, b)| (*a, *b)).collect(); let ks: Vec<u32> = m.keys().copied().collect(); let vs: Vec<u32> = m.values().copied().collect();
        drive!(h.iter(), &kv, p, |(k, v): (&E, &E)| { k.check(); v.check(); (k.v, v.v) }, true);
        drive!((&h).into_iter(), &kv, p, |(k, v): (&E, &E)| (k.v, v.v), true);
        drive!(h.keys(), &ks, p, |k: &E| k.v, true);
        drive!(h.values(), &vs, p, |k: &E| k.v, true);
        ensure!(h.iter().len() == n_of(&m) && h.keys().len() == n_of(&m) && h.values().len() == n_of(&m), "len");
        drive!(h.iter_mut(), &kv, p, |(k, v): (&E, &mut E)| { let r = (k.v, v.v); v.v += 5; r }, true);
        let vs2: Vec<u32> = vs.iter().map(|v| v + 5).collect();
        drive!(h.values_mut(), &vs2, p, |v: &mut E| { let r = v.v; v.v += 5; r }, true);
        ensure!(h.iter_mut().len() == n_of(&m) && h.values_mut().len() == n_of(&m), "len");
        for v in m.values_mut() { *v += 10; }
        for (_, v) in &mut h { v.v += 1; } for v in m.values_mut() { *v += 1; }
        full(&h, &m)?;
        // clones resume from the same place
        let kv: Vec<(u32, u32)> = m.iter().map(|(a, b)| (*a, *b)).collect();
        { let mut it = h.iter(); let (mut a, mut b) = (0, kv.len()); let mut rng = Rng::new(p as u64); for _ in 0..rng.below(kv.len() + 1) { if rng.below(2) == 0 { it.next(); a += 1; } else { it.next_back(); b -= 1; } }
          let rest: Vec<(u32, u32)> = kv[a..b].to_vec(); drive!(it.clone(), &rest, p, |(k, v): (&E, &E)| (k.v, v.v), true); drive!(it, &rest, p, |(k, v): (&E, &E)| (k.v, v.v), true); }
        { let ks: Vec<u32> = m.keys().copied().collect(); let mut it = h.keys(); it.next(); drive!(it.clone(), &ks.get(1..).unwrap_or(&[]).to_vec(), p, |k: &E| k.v, true); }
        { let vs: Vec<u32> = m.values().copied().collect(); let mut it = h.values(); it.next_back(); drive!(it.clone(), &vs[..vs.len().saturating_sub(1)].to_vec(), p, |k: &E| k.v, true); }
        ensure!(format!("{:?}", h.iter()) == format!("{:?}", kv) && format!("{:?}", h.keys()) == format!("{:?}", ks), "Debug of an iterator");
        // folding consumers
        ensure!(h.iter().count() == kv.len() && h.iter().last().map(|x| x.0.v) == kv.last().map(|x| x.0) && h.iter().rev().map(|x| x.0.v).eq(kv.iter().rev().map(|x| x.0)), "count, last or rev");
        ensure!(h.iter().min().map(|x| x.0.v) == kv.first().map(|x| x.0) && h.iter().max().map(|x| x.0.v) == kv.last().map(|x| x.0) && h.keys().min().map(|x| x.v) == ks.first().copied() && h.keys().max().map(|x| x.v) == ks.last().copied(), "min or max");
        for j in [0usize, 1, 5, 12] { ensure!(h.iter().nth(j).map(|x| x.0.v) == kv.get(j).map(|x| x.0) && h.keys().nth(j).map(|x| x.v) == ks.get(j).copied(), "nth"); }
        ensure!(h.into_iter().len() == kv.len(), "len");
        let (h, m) = build(n, s, 7); let kv: Vec<(u32, u32)> = m.iter().map(|(a, b)| (*a, *b)).collect();
        drive!(h.into_iter(), &kv, p, |(k, v): (E, E)| { k.check(); v.check(); (k.v, v.v) }, true);
        Ok(())
    };
    for n in 0..=5usize { for p in 0..(1usize << (n + 1)) { cx.distinct += 1; let p = (p << 8) | 255; cx.case(|| format!("{} entries, pattern {:b}", n, p >> 8), || one(n, 0, p)); } }
    for n in [0usize, 1, 2, 5, 11, 12, 23, 40, 90] { for s in [0usize, 2, 4] { cx.distinct += 1; cx.case(|| format!("provided iterator methods, shape {} of {} entries", s, n), || {
        let (mut h, m) = build(n, s, 7);
        let kv: Vec<(u32, u32)> = m.iter().map(|(a, b)| (*a, *b)).collect(); let ks: Vec<u32> = m.keys().copied().collect(); let vs: Vec<u32> = m.values().copied().collect();
        provided!(both "iter", h.iter(), kv, |(k, v): (&E, &E)| { k.check(); v.check(); (k.v, v.v) });
        provided!(both "keys", h.keys(), ks, |k: &E| { k.check(); k.v });
        provided!(both "values", h.values(), vs, |k: &E| { k.check(); k.v });
        provided!(both "iter_mut", h.iter_mut(), kv, |(k, v): (&E, &mut E)| { k.check(); v.check(); (k.v, v.v) });
        provided!(both "values_mut", h.values_mut(), vs, |k: &mut E| { k.check(); k.v });
        provided!(both "range", h.range::<u32, _>(..), kv, |(k, v): (&E, &E)| { k.check(); v.check(); (k.v, v.v) });
        provided!(both "range_mut", h.range_mut::<u32, _>(..), kv, |(k, v): (&E, &mut E)| { k.check(); v.check(); (k.v, v.v) });
        full(&h, &m) }); } }
    for n in [0usize, 1, 5, 12, 23, 40] { cx.distinct += 1; cx.case(|| format!("provided methods of the consuming iterator over {} entries", n), || {
        let (_h, m) = build(n, 2, 7); let kv: Vec<(u32, u32)> = m.iter().map(|(a, b)| (*a, *b)).collect();
        provided!(both "into_iter", build(n, 2, 7).0.into_iter(), kv, |(k, v): (E, E)| { k.check(); v.check(); (k.v, v.v) });
        Ok(()) }); }
    for &n in crate::more::TALL { for s in 0..SHAPES { for p in 0..if n > 2000 { 3 } else { 5 } { if cx.out_of_time() { return; } if cx.scale == 1 && (n > 2000 && s % 4 != 2 || n == 1300 && s % 2 == 0) { continue; } let p = if n > 2000 { 2 * p } else { p }; cx.distinct += 1; cx.case(|| format!("tall shape {} of {} entries, pattern {}", s, n, p), || one(n, s, p)); } } }
    shapes(cx, SIZES, |cx, n, s| for p in 0..5 { cx.distinct += 1; cx.case(|| format!("shape {} of {} entries, pattern {}", s, n, p), || one(n, s, p)); });
}
fn n_of(m: &Mod) -> usize { m.len() }

// -------------------------------------------------------------------------------- C14
pub fn bound(kind: usize, k: u32) -> Bound<u32> { match kind { 0 => Bound::Included(k), 1 => Bound::Excluded(k), _ => Bound::Unbounded } }
pub fn bad_range(a: &Bound<u32>, b: &Bound<u32>) -> bool {
    match (a, b) { (Bound::Excluded(x), Bound::Excluded(y)) => x >= y, (Bound::Included(x) | Bound::Excluded(x), Bound::Included(y) | Bound::Excluded(y)) => x > y, _ => false }
}
pub fn range_case(h: &mut Map, m: &Mod, a: Bound<u32>, b: Bound<u32>, p: usize) -> R {
    if bad_range(&a, &b) {
        ensure!(catch_unwind(AssertUnwindSafe(|| { h.range::<u32, _>((a, b)).next().is_some() })).is_err(), "range({:?}, {:?}) does not panic", a, b);
        ensure!(catch_unwind(AssertUnwindSafe(|| { h.range_mut::<u32, _>((a, b)).next().is_some() })).is_err(), "range_mut({:?}, {:?}) does not panic", a, b);
        return Ok(());
    }
    let want: Vec<(u32, u32)> = m.range((a, b)).map(|(k, v)| (*k, *v)).collect();
    drive!(h.range::<u32, _>((a, b)), &want, p, |(k, v): (&E, &E)| { k.check(); (k.v, v.v) }, false);
    drive!(h.range_mut::<u32, _>((a, b)), &want, p, |(k, v): (&E, &mut E)| (k.v, v.v), false);
    { let r = h.range::<u32, _>((a, b)); let mut it = r.clone(); if it.next().is_some() { drive!(it.clone(), &want[1..].to_vec(), p, |(k, v): (&E, &E)| (k.v, v.v), false); } }
    ensure!(h.range::<u32, _>((a, b)).count() == want.len() && h.range::<u32, _>((a, b)).last().map(|x| x.0.v) == want.last().map(|x| x.0), "count or last");
    ensure!(h.range::<u32, _>((a, b)).min().map(|x| x.0.v) == want.first().map(|x| x.0) && h.range::<u32, _>((a, b)).max().map(|x| x.0.v) == want.last().map(|x| x.0), "min or max");
    Ok(())
}
pub fn c14(cx: &mut Ctx) {
    for n in [0usize, 1, 2, 5, 11, 12, 13] { for s in [0usize, 1, 4] { for p in 0..5 {
        if cx.out_of_time() { return; }
        cx.distinct += 1;
        cx.case(|| format!("all ranges over shape {} of {} entries, pattern {}", s, n, p), || {
            let (mut h, m) = build(n, s, 11); let top = m.keys().next_back().map_or(3, |k| k + 3);
            for a in 0..top { for b in 0..top { for (x, y) in [(0, 0), (0, 1), (1, 0), (1, 1)] { range_case(&mut h, &m, bound(x, a), bound(y, b), p).map_err(|e| format!("range ({:?}, {:?}): {}", bound(x, a), bound(y, b), e))?; } }
                for x in 0..2 { range_case(&mut h, &m, bound(x, a), Bound::Unbounded, p)?; range_case(&mut h, &m, Bound::Unbounded, bound(x, a), p)?; } }
            range_case(&mut h, &m, Bound::Unbounded, Bound::Unbounded, p)
        });
    } } }
    shapes(cx, SIZES, |cx, n, s| { cx.distinct += 1; let seed = cx.seed; cx.case(|| format!("ranges over shape {} of {} entries", s, n), || {
        let (mut h, m) = build(n, s, 13); let top = m.keys().next_back().map_or(3, |k| k + 3) as usize; let mut rng = Rng::new(seed + n as u64 * 10 + s as u64);
        for _ in 0..150 { let (a, b) = (bound(rng.below(3), rng.below(top) as u32), bound(rng.below(3), rng.below(top) as u32)); range_case(&mut h, &m, a, b, rng.below(5)).map_err(|e| format!("range ({:?}, {:?}): {}", a, b, e))?; }
        let (wa, wb) = (rng.below(top / 2) as u32, (top / 2 + rng.below(top / 2 + 1)) as u32); let want: Vec<(u32, u32)> = m.range(wa..=wb).map(|(k, v)| (*k, *v)).collect();
        if n <= 90 { provided!(both "range", h.range::<u32, _>(&wa..=&wb), want, |(k, v): (&E, &E)| { k.check(); (k.v, v.v) }); provided!(both "range_mut", h.range_mut::<u32, _>(&wa..=&wb), want, |(k, v): (&E, &mut E)| { k.check(); (k.v, v.v) }); }
        // writing through range_mut
        let (a, b) = (rng.below(top) as u32, rng.below(top) as u32); let (a, b) = (a.min(b), a.max(b));
        let mut m = m; for (_, v) in h.range_mut::<u32, _>((Bound::Included(a), Bound::Included(b))) { v.v += 9; } for (_, v) in m.range_mut(a..=b) { *v += 9; } full(&h, &m)
    }); });
}
// -------------------------------------------------------------------------------- C15
fn after(h: &mut Map, m: &mut Mod, seed: u64) -> R {
    full(h, m)?;
    let mut rng = Rng::new(seed); let top = m.keys().next_back().map_or(8, |k| k + 8) as usize;
    for i in 0..40u32 { let k = rng.below(top) as u32; if rng.below(2) == 0 { let r = h.try_insert(E::new(k), E::new(i)).map_err(|_| "Err")?; ensure!(r.map(|e| e.v) == m.insert(k, i), "try_insert({}) afterwards", k); } else { let r = h.remove(&k); ensure!(r.map(|e| e.v) == m.remove(&k), "remove({}) afterwards", k); } }
    full(h, m)?; lookups(h, m, 0..top as u32)
}
pub fn c15(cx: &mut Ctx) {
    shapes(cx, SIZES, |cx, n, s| {
        for cut in cuts(n) { cx.distinct += 1; cx.case(|| format!("split_off({}) on shape {} of {} entries", cut, s, n), || {
            let (mut h, mut m) = build(n, s, 17); let ids: M<u32, (usize, usize)> = h.iter().map(|(k, v)| (k.v, (k.id, v.id))).collect();
            let mut o = h.split_off(&cut).map_err(|_| "Err")?; let mut mo = m.split_off(&cut);
            full(&h, &m)?; full(&o, &mo)?;
            for (k, v) in h.iter().chain(o.iter()) { ensure!(ids[&k.v] == (k.id, v.id), "entry {} was replaced", k.v); }
            after(&mut h, &mut m, 3)?; after(&mut o, &mut mo, 4)
        }); }
    });
    for &n in &[0usize, 1, 5, 11, 12, 40, 150, 400, 1100] { for &n2 in &[0usize, 1, 2, 4, 5, 6, 11, 12, 13, 23, 67, 68, 140, 155, 420, 1200] { for mode in 0..11 {
        if cx.out_of_time() || n + n2 > 500 && mode < 5 { continue; }
        cx.distinct += 1;
        cx.case(|| format!("append {} entries to {} (overlap mode {})", n2, n, mode), || {
            let (mut h, mut m) = build(n, n2 % SHAPES, 19); let mut o = Map::new(); let mut mo = Mod::new();
            let (lo, hi) = (m.keys().next().copied().unwrap_or(0), m.keys().next_back().copied().unwrap_or(0)); let mid = m.keys().nth(m.len() / 2).copied().unwrap_or(0);
            for i in 0..n2 as u32 { let k = match mode { 5 => hi + i, 6 => hi + 1 + i, 7 => hi.saturating_sub(1) + i, 8 => (lo + 1 + i).saturating_sub(n2 as u32), 9 => mid + 2 * i, 10 => mid + 1 + 2 * i, 0 => 2 * i, 1 => 2 * i + 1, 2 => 100000 + i, 3 => i, _ => if i % 2 == 0 { i } else { 50 + i * 3 } }; o.try_insert(E::new(k), E::new(5000 + i)).map_err(|_| "Err")?; mo.insert(k, 5000 + i); }
            let kid: M<u32, usize> = h.iter().map(|(k, _)| (k.v, k.id)).chain(o.iter().map(|(k, _)| (k.v, k.id))).collect();
            let vid: M<u32, usize> = h.iter().map(|(k, v)| (k.v, v.id)).chain(o.iter().map(|(k, v)| (k.v, v.id))).collect();
            let fresh = h.is_empty();
            h.append(&mut o); m.append(&mut mo);
            ensure!(o.is_empty() && o.len() == 0 && o.iter().next().is_none(), "the other map is not empty");
            full(&h, &m)?;
            if !fresh { for (k, v) in h.iter() { ensure!(vid[&k.v] == v.id, "value of key {} is not the one expected", k.v); ensure!(kid[&k.v] == k.id, "key {} is not the one of the other map", k.v); } }
            after(&mut h, &mut m, 5)?; after(&mut o, &mut Mod::new(), 6)
        });
    } } }
    // every length modulo the node capacities
    for n in 0..320usize { if cx.out_of_time() { return; } cx.distinct += 1; cx.case(|| format!("append one entry to {}", n), || {
        let mut h = Map::new(); let mut m = Mod::new(); for i in 0..n as u32 { h.try_insert(E::new(i), E::new(i)).map_err(|_| "Err")?; m.insert(i, i); }
        let mut o = Map::new(); o.try_insert(E::new(7000), E::new(1)).map_err(|_| "Err")?; h.append(&mut o); m.insert(7000, 1); after(&mut h, &mut m, n as u64) }); }
    for i in 0..cx.n(300) { if cx.out_of_time() { return; } let s = cx.seed * 613 + i; cx.distinct += 1; cx.case(|| format!("random history of splits and appends {}", s), || {
        let mut rng = Rng::new(s); let (mut h, mut m) = build(rng.below(200), rng.below(SHAPES), s); let (mut g, mut k) = build(rng.below(60), rng.below(SHAPES), s + 1);
        for _ in 0..12 { match rng.below(3) { 0 => { let c = rng.below(420) as u32; let mut o = h.split_off(&c).map_err(|_| "Err")?; let mut mo = m.split_off(&c); g.append(&mut o); k.append(&mut mo); }
            1 => { h.append(&mut g); m.append(&mut k); } _ => { std::mem::swap(&mut h, &mut g); std::mem::swap(&mut m, &mut k); after(&mut h, &mut m, rng.next())?; } } full(&h, &m)?; full(&g, &k)?; }
        Ok(()) }); }
}
// -------------------------------------------------------------------------------- C16 (and the tree part of C03)
/// Every key overwritten, every gap filled through one of the ways in, with memory refused.
pub fn every(cx: &mut Ctx) {
    for n in [1u32, 11, 12, 13, 14, 16, 17, 18, 23, 24, 36, 48, 67, 80, 101, 160, 230, 400] { for order in 0..8 { for af in [0i64, 1, 2] {
        if cx.out_of_time() || n > 100 && af > 0 { continue; }
        cx.distinct += 1; cx.case(|| format!("every key of {} (order {}) overwritten and inserted next to, allocation {} fails", n, order, af), || {
        let mut h = Map::new(); let mut m: std::collections::BTreeMap<u32, (usize, usize)> = Default::default();
        for (put, x) in crate::setx::grown(n, order) { if put { if !m.contains_key(&x) { let (a, b) = (E::new(x), E::new(x)); m.insert(x, (a.id, b.id)); h.try_insert(a, b).map_err(|_| "Err")?; } } else { h.remove(&x); m.remove(&x); } }
        let same = |h: &Map, m: &std::collections::BTreeMap<u32, (usize, usize)>, k: u32, e: bool| -> R { ensure!(h.len() == m.len() && h.iter().map(|(a, b)| (a.v, a.id, b.id)).eq(m.iter().map(|(k, (a, b))| (*k, *a, *b))), "after {} ({}): the entries are not those expected", k, if e { "Ok" } else { "Err" }); ensure!(reg_live() == 2 * m.len() as i64, "{} keys and values alive, {} entries", reg_live(), m.len()); Ok(()) };
        let keys: Vec<u32> = m.keys().copied().collect();
        for (i, &k) in keys.iter().enumerate() {
            let (a, b) = (E::new(k), E::new(1)); let id = b.id;
            let r = with_alloc_fail(af, || match i % 3 { 0 | 1 => h.try_insert(a, b).map(|o| o.map(|e| e.id)), _ => match h.try_entry(a) { Ok(Entry::Occupied(mut o)) => Ok(Some(o.insert(b).id)), Ok(Entry::Vacant(v)) => v.try_insert(b).map(|_| None), Err(e) => Err(e) } });
            let ok = r.is_ok(); if let Ok(old) = r { ensure!(old == m.get(&k).map(|x| x.1), "overwriting {} gave {:?}", k, old); m.get_mut(&k).unwrap().1 = id; } same(&h, &m, k, ok)?;
            let g = k + 1 + i as u32 % 2; let (a, b) = (E::new(g), E::new(2)); let ids = (a.id, b.id);
            let r = with_alloc_fail(af, || match i % 4 { 0 => h.try_insert(a, b).map(|_| ()), 1 => h.try_entry(a).and_then(|e| e.or_try_insert(b).map(|_| ())), 2 => h.try_entry(a).and_then(|e| e.or_try_insert_with(|| b).map(|_| ())), _ => match h.try_entry(a) { Ok(Entry::Vacant(v)) => v.try_insert(b).map(|_| ()), Ok(Entry::Occupied(_)) => Ok(()), Err(e) => Err(e) } });
            let ok = r.is_ok(); if ok { m.insert(g, ids); } same(&h, &m, g, ok)?;
            if i % 4 != 3 { ensure!(h.remove(&g).map(|e| e.id) == m.remove(&g).map(|x| x.1), "remove({})", g); }
        }
        Ok(()) }); } } }
}
pub fn c16(cx: &mut Ctx) {
    let sizes: Vec<usize> = SIZES.iter().copied().chain([11, 17, 65, 66, 67, 77, 142, 155]).collect();
    shapes(cx, &sizes, |cx, n, s| for op in 0..7 { for af in 0..6i64 { for pos in 0..5 {
        if op == 6 && pos > 2 { continue; }
        cx.distinct += 1;
        cx.case(|| format!("{} at position {} of shape {} of {} entries, allocation {} fails", ["try_insert", "try_entry.or_try_insert", "or_try_insert_with", "or_default-like", "VacantEntry::try_insert", "try_insert of a present key", "split_off"][op], pos, s, n, af), || {
            let (mut h, mut m) = build(n, s, 23); let top = m.keys().next_back().map_or(1, |k| k + 2);
            let ids: Vec<(usize, usize)> = h.iter().map(|(k, v)| (k.id, v.id)).collect();
            let k = (match pos { 0 => 0, 1 => top / 4, 2 => top / 2, 3 => top / 4 * 3, _ => top }) | 1; let live = reg_live();
            let key = if op == 5 { match m.keys().nth(m.len() * pos / 5) { Some(k) => *k, None => return Ok(()) } } else { k };
            let (a, b) = (E::new(key), E::new(42)); let mut made = None;
            let ok = match op {
                6 => { drop((a, b)); with_alloc_fail(af, || h.split_off(&k)).map(|o| made = Some(o)).is_ok() }
                0 | 5 => with_alloc_fail(af, || h.try_insert(a, b)).is_ok(),
                1 => with_alloc_fail(af, || h.try_entry(a).and_then(|e| e.or_try_insert(b).map(|_| ()))).is_ok(),
                2 => with_alloc_fail(af, || h.try_entry(a).and_then(|e| e.or_try_insert_with(|| b).map(|_| ()))).is_ok(),
                3 => with_alloc_fail(af, || h.try_entry(a).map(|e| e.and_modify(|v| v.v += 1)).and_then(|e| e.or_try_insert(b).map(|_| ()))).is_ok(),
                _ => with_alloc_fail(af, || match h.try_entry(a) { Ok(Entry::Vacant(v)) => v.try_insert(b).is_ok(), Ok(Entry::Occupied(_)) => false, Err(_) => false }),
            };
            if ok { match op { 6 => { let mut mo = m.split_off(&k); let mut o = made.unwrap(); after(&mut o, &mut mo, 2)?; } _ => { m.insert(key, 42); } } }
            else { ensure!(op != 5 || n == 0 || h.len() == m.len(), "len"); ensure!(reg_live() == live, "rejected key and value were not dropped once"); let now: Vec<(usize, usize)> = h.iter().map(|(k, v)| (k.id, v.id)).collect(); ensure!(now == ids && h.len() == m.len(), "Err but the map changed: {} entries, length {}, instead of {}", now.len(), h.len(), m.len()); }
            after(&mut h, &mut m, 9)
        });
    } } });
}
// -------------------------------------------------------------------------------- C17
pub fn c17(cx: &mut Ctx) {
    shapes(cx, SIZES, |cx, n, s| {
        cx.distinct += 3;
        cx.case(|| format!("drop of shape {} of {} entries", s, n), || { let _ = build(n, s, 29); Ok(()) });
        cx.case(|| format!("clear, refill and drop shape {} of {} entries", s, n), || { let (mut h, _) = build(n, s, 29); h.clear(); for i in 0..30 { h.try_insert(E::new(i), E::new(i)).map_err(|_| "Err")?; } for i in 0..30u32 { h.remove(&i); } ensure!(reg_live() == 0, "{} elements alive in an empty map", reg_live()); Ok(()) });
        cx.case(|| format!("overwrite every value of shape {} of {} entries", s, n), || { let (mut h, m) = build(n, s, 29); for k in m.keys() { drop(h.try_insert(E::new(*k), E::new(1)).map_err(|_| "Err")?); ensure!(reg_live() == 2 * m.len() as i64, "live elements"); } Ok(()) });
        let steps: Vec<usize> = if n <= 13 { (0..=n).collect() } else { vec![0, 1, 4, 6, 7, 11, 12, 13, n / 2, n - 12, n - 7, n - 2, n - 1, n] };
        for &a in &steps { for &b in &steps { if a + b > n + 1 { continue; } cx.distinct += 1; cx.case(|| format!("into_iter of shape {} of {} entries, {} from the front and {} from the back taken, then dropped", s, n, a, b), || {
            let (h, m) = build(n, s, 29); let mut it = h.into_iter(); let mut kept = vec![]; for i in 0..a.max(b) { if i < a { kept.extend(it.next()); } if i < b { kept.extend(it.next_back()); } }
            ensure!(reg_live() == 2 * m.len() as i64, "elements dropped early"); drop(it); ensure!(reg_live() == 2 * kept.len() as i64, "{} elements alive, {} taken", reg_live(), 2 * kept.len()); for (k, v) in &kept { k.check(); v.check(); } Ok(()) }); } }
        for cut in cuts(n) { cx.distinct += 1; cx.case(|| format!("split_off({}) of shape {} of {} entries, parts dropped or rejoined", cut, s, n), || { let (mut h, m) = build(n, s, 29); let mut o = h.split_off(&cut).map_err(|_| "Err")?; ensure!(reg_live() == 2 * m.len() as i64, "live elements"); if cut % 3 == 0 { drop(h); } else if cut % 3 == 1 { drop(o); } else { h.append(&mut o); } Ok(()) }); }
        for (af, cf) in [(-1i64, -1i64), (0, -1), (1, -1), (2, -1), (4, -1), (-1, 0), (-1, 1), (-1, 2), (-1, 23), (-1, 24), (-1, 25), (-1, n as i64), (-1, 2 * n as i64 - 1)] { cx.distinct += 1; cx.case(|| format!("try_clone of shape {} of {} entries, allocation {} and clone {} fail", s, n, af, cf), || { let (h, _) = build(n, s, 29); set_clone_fail(cf); let c = with_alloc_fail(af, || h.try_clone()); set_clone_fail(-1); drop(c); for (k, v) in h.iter() { k.check(); v.check(); } Ok(()) }); }
        for cp in [0i64, 1, 5, 22, 23, 24, n as i64] { cx.distinct += 1; cx.case(|| format!("clone of shape {} of {} entries, clone {} panics", s, n, cp), || { let (h, _) = build(n, s, 29); set_clone_panic(cp); let c = catch_unwind(AssertUnwindSafe(|| h.clone())); set_clone_panic(-1); drop(c); for (k, v) in h.iter() { k.check(); v.check(); } Ok(()) }); }
    });
    // deep maps: four and five levels
    for n in [500usize, 700, 3000] { for s in [0usize, 1, 2, 6] { for (a, b) in [(0usize, 0usize), (1, 0), (0, 1), (n / 2, n / 4), (n - 1, 0), (n, 0), (0, n), (n, 1)] {
        if cx.out_of_time() { return; }
        cx.distinct += 1;
        cx.case(|| format!("into_iter of deep shape {} of {} entries, {} from the front and {} from the back taken, then dropped", s, n, a, b), || {
            let (h, _) = build(n, s, 29); let mut it = h.into_iter(); for _ in 0..a { drop(it.next()); } for _ in 0..b { drop(it.next_back()); } drop(it); ensure!(reg_live() == 0, "{} elements alive", reg_live()); Ok(()) });
    } } }
    for i in 0..cx.n(600) { if cx.out_of_time() { return; } let s = cx.seed * 2741 + i; cx.distinct += 1; cx.case(|| format!("random history {}", s), || {
        let mut rng = Rng::new(s); let (mut h, mut m) = build(rng.below(80), rng.below(SHAPES), s);
        for _ in 0..60 { let k = rng.below(200) as u32; match rng.below(9) { 0..=2 => { let af = rng.below(6) as i64 - 2; let (a, b) = (E::new(k), E::new(1)); if let Ok(r) = with_alloc_fail(af, || h.try_insert(a, b)) { drop(r); m.insert(k, 1); } } 3..=5 => { drop(h.remove(&k)); m.remove(&k); }
            6 => { let af = rng.below(5) as i64 - 1; if let Ok(mut o) = with_alloc_fail(af, || h.split_off(&k)) { let mut mo = m.split_off(&k); if rng.below(2) == 0 { h.append(&mut o); m.append(&mut mo); } } }
            7 => { set_clone_fail(rng.below(300) as i64); if let Ok(c) = h.try_clone() { h = c; } set_clone_fail(-1); } _ => { if let Ok(Entry::Occupied(e)) = h.try_entry(E::new(k)) { drop(e.remove_entry()); m.remove(&k); } } }
            ensure!(reg_live() == 2 * m.len() as i64, "{} elements alive for {} entries", reg_live(), m.len()); }
        Ok(()) }); }
}
// -------------------------------------------------------------------------------- C06 for maps
pub fn clone(cx: &mut Ctx) {
    shapes(cx, SIZES, |cx, n, s| for (af, cf) in [(-1i64, -1i64), (0, -1), (1, -1), (2, -1), (3, -1), (7, -1), (-1, 0), (-1, 1), (-1, 2), (-1, 12), (-1, 23), (-1, n as i64), (-1, 2 * n as i64 - 1)] {
        cx.distinct += 1;
        cx.case(|| format!("try_clone of a BTreeMap, shape {} of {} entries, allocation {} and clone {} fail", s, n, af, cf), || {
            let (h, m) = build(n, s, 31); let ids: Vec<(usize, usize)> = h.iter().map(|(k, v)| (k.id, v.id)).collect(); let k0 = clones();
            set_clone_fail(cf); let c = with_alloc_fail(af, || h.try_clone()); set_clone_fail(-1);
            ensure!(h.iter().map(|(k, v)| (k.id, v.id)).collect::<Vec<_>>() == ids, "the original changed"); full(&h, &m)?;
            match c { Ok(mut c) => { full(&c, &m)?; lookups(&c, &m, 0..2 * n as u32 + 2)?; ensure!(clones() - k0 == 2 * m.len() as u64, "{} clones for {} entries", clones() - k0, m.len()); ensure!(c == h, "clone is not equal"); for v in c.values_mut() { v.v += 1; } for k in 0..n as u32 { c.remove(&k); } full(&h, &m)?; }
                Err(_) => ensure!(af >= 0 || cf >= 0, "failed without a reason") }
            if af < 0 && cf < 0 {
                let mut c = h.clone(); full(&c, &m)?; let (mut d, _) = build(n / 2 + 3, (s + 1) % SHAPES, 5); d.clone_from(&h); full(&d, &m)?; for (a, b) in h.iter().zip(d.iter()) { ensure!(a.0.id != b.0.id && a.1.id != b.1.id, "a clone shares an entry"); }
                for v in d.values_mut() { v.v += 1; } c.clear(); full(&h, &m)?; c.clone_from(&Map::new()); ensure!(c.is_empty() && c.iter().next().is_none(), "clone_from of an empty map"); d.clone_from(&c); ensure!(d.is_empty() && d.len() == 0, "clone_from of an empty map"); c.clone_from(&h); after(&mut c, &mut m.clone(), 7)?; full(&h, &m)?;
            }
            Ok(())
        });
    });
}
// -------------------------------------------------------------------------------- C19
pub fn c19(cx: &mut Ctx) {
    shapes(cx, SIZES, |cx, n, s| { let ks = cuts(n); for (i, k) in ks.into_iter().enumerate() { for op in 0..9 {
        if n > 40 && (i + op) % 3 != 0 { continue; }
        cx.distinct += 1;
        cx.case(|| format!("entry operation {} on key {} of shape {} of {} entries", op, k, s, n), || {
            let (mut h, mut m) = build(n, s, 37); let present = m.get(&k).copied(); let key = E::new(k); let kid = key.id; let old_kid = h.get_key_value(&k).map(|x| x.0.id);
            { let e = h.try_entry(key).map_err(|_| "Err")?; ensure!(e.key().v == k, "Entry::key"); ensure!(matches!(e, Entry::Occupied(_)) == present.is_some(), "Occupied for an absent key or Vacant for a present one");
              match op {
                0 => { let r = e.or_try_insert(E::new(77)).map_err(|_| "Err")?; ensure!(r.v == present.unwrap_or(77), "or_try_insert gave {:?}", r); r.v = 78; m.insert(k, 78); }
                1 => { let mut called = false; let r = e.or_try_insert_with(|| { called = true; E::new(77) }).map_err(|_| "Err")?; ensure!(r.v == present.unwrap_or(77), "or_try_insert_with gave {:?}", r); r.v += 1; let x = r.v; ensure!(called == present.is_none(), "the default was built needlessly or not at all"); m.insert(k, x); }
                2 => { let mut called = false; let e = e.and_modify(|v| { called = true; v.v = 55; }); ensure!(called == present.is_some(), "and_modify"); let r = e.or_try_insert(E::new(77)).map_err(|_| "Err")?; ensure!(r.v == if present.is_some() { 55 } else { 77 }, "value {:?}", r); let x = r.v; m.insert(k, x); }
                3 => match e { Entry::Occupied(mut o) => { ensure!(o.get().v == present.unwrap() && o.key().v == k, "get or key"); let old = o.insert(E::new(66)); ensure!(Some(old.v) == present && o.get().v == 66, "insert"); o.get_mut().v = 67; let r = o.into_mut(); ensure!(r.v == 67, "into_mut"); r.v = 68; m.insert(k, 68); } Entry::Vacant(v) => { ensure!(v.key().v == k, "key"); let q = v.into_key(); ensure!(q.id == kid, "into_key gave another key"); } },
                4 => match e { Entry::Occupied(o) => { let (q, v) = o.remove_entry(); ensure!(Some(q.id) == old_kid && Some(v.v) == present, "remove_entry gave ({:?}, {:?})", q, v); m.remove(&k); } Entry::Vacant(v) => { let r = v.try_insert(E::new(70)).map_err(|_| "Err")?; ensure!(r.v == 70, "try_insert gave {:?}", r); r.v = 71; m.insert(k, 71); } },
                5 => match e { Entry::Occupied(o) => { let v = o.remove(); ensure!(Some(v.v) == present, "remove gave {:?}", v); m.remove(&k); } Entry::Vacant(_) => {} },
                6 => { let _ = format!("{:?}", e); }
                7 => { drop(e); }
                _ => { let r = e.or_try_insert(E::new(77)).map_err(|_| "Err")?; let p = r as *mut E; m.entry(k).or_insert(77); unsafe { ensure!((*p).v == m[&k], "reference to another value"); (*p).v = 90; } m.insert(k, 90); }
              } }
            full(&h, &m)?; if let (Some(id), true) = (old_kid, m.contains_key(&k)) { ensure!(h.get_key_value(&k).map(|x| x.0.id) == Some(id), "the stored key was replaced"); }
            after(&mut h, &mut m, 21)
        });
    } } });
    for n in [0u32, 5, 11, 12, 100] { for k in 0..=n { cx.distinct += 1; cx.case(|| format!("or_default at key {} of {}", k, n), || { let mut h: BTreeMap<u32, u32> = BTreeMap::new(); let mut m = Mod::new(); for i in 0..n { if i != k { h.try_insert(i, i + 9).map_err(|_| "Err")?; m.insert(i, i + 9); } }
        *h.try_entry(k).map_err(|_| "Err")?.or_default().map_err(|_| "Err")? += 3; *h.try_entry(k / 2).map_err(|_| "Err")?.or_default().map_err(|_| "Err")? += 3; *m.entry(k).or_default() += 3; *m.entry(k / 2).or_default() += 3; ensure!(h.iter().map(|(a, b)| (*a, *b)).eq(m.iter().map(|(a, b)| (*a, *b))), "{:?} instead of {:?}", h, m); Ok(()) }); } }
}
// -------------------------------------------------------------------------------- C20
pub fn c20(cx: &mut Ctx) {
    use std::collections::hash_map::DefaultHasher; use std::hash::{Hash, Hasher};
    fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
    fn conv(m: &Mod, order: usize) -> BTreeMap<u32, u32> { let mut h = BTreeMap::new(); let mut ks: Vec<(u32, u32)> = m.iter().map(|(a, b)| (*a, *b)).collect(); if order % 2 == 1 { ks.reverse(); } if order / 2 % 2 == 1 { for i in 0..40u32 { h.try_insert(1_000_000 + i, 0).unwrap(); } } for (a, b) in ks { h.try_insert(a, b).unwrap(); } for i in 0..40u32 { h.remove(&(1_000_000 + i)); } h }
    for n in [0usize, 1, 2, 11, 12, 13, 30, 100, 200] { for s in 0..SHAPES { for o in 0..4 {
        if cx.out_of_time() { return; }
        cx.distinct += 1;
        cx.case(|| format!("comparisons with shape {} of {} entries (order {})", s, n, o), || {
            let (h, m) = build(n, s, 41); let mut g = Map::new(); let mut ks: Vec<u32> = m.keys().copied().collect(); if o % 2 == 1 { ks.reverse(); } for k in &ks { g.try_insert(E::new(*k), E::new(m[k])).map_err(|_| "Err")?; }
            ensure!(h == g && !(h != g) && g == h, "equal contents compare unequal"); ensure!(h.cmp(&g) == std::cmp::Ordering::Equal && h.partial_cmp(&g) == Some(std::cmp::Ordering::Equal), "cmp of equal contents"); ensure!(hash(&h) == hash(&g), "hashes of equal contents differ"); ensure!(format!("{:?}", h) == format!("{:?}", g) && format!("{:?}", h) == format!("{:?}", m) && format!("{:#?}", h) == format!("{:#?}", m), "Debug differs: {:?}", h);
            ensure!(hash(&(h.try_clone().map_err(|_| "Err")?)) == hash(&h), "hash of a clone");
            // one difference at every kind of place
            for (j, k) in ks.iter().enumerate() { if n > 30 && j % 9 != 0 { continue; }
                for change in 0..4 { let mut m2 = m.clone(); match change { 0 => { *m2.get_mut(k).unwrap() += 1; } 1 => { m2.remove(k); } 2 => { m2.insert(k + 1, 0); } _ => { let v = m2.remove(k).unwrap(); m2.insert(k + 1, v); } }
                    let (a, b) = (conv(&m, o), conv(&m2, o + 1)); ensure!((a == b) == (m == m2) && (b == a) == (m == m2), "equality of {:?} and {:?}", m, m2); ensure!(a.cmp(&b) == m.cmp(&m2) && b.cmp(&a) == m2.cmp(&m) && a.partial_cmp(&b) == m.partial_cmp(&m2), "order of {:?} and {:?}", m, m2); } }
            Ok(())
        });
    } } }
    let all: Vec<Mod> = (0..81usize).map(|c| { let mut m = Mod::new(); let mut c = c; for k in 0..4u32 { match c % 3 { 1 => { m.insert(k, 0); } 2 => { m.insert(k, 1); } _ => {} } c /= 3; } m }).collect();
    for (i, a) in all.iter().enumerate() { cx.distinct += 1; cx.case(|| format!("all small maps against {:?}", a), || { for (j, b) in all.iter().enumerate() { let (x, y) = (conv(a, i + j), conv(b, j)); ensure!((x == y) == (a == b) && (x != y) == (a != b) && x.cmp(&y) == a.cmp(b) && x.partial_cmp(&y) == a.partial_cmp(b), "{:?} against {:?}", a, b); ensure!((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "an operator on {:?} and {:?}", a, b); ensure!(Ord::max(&x, &y).len() == Ord::max(a, b).len() && Ord::min(&x, &y).len() == Ord::min(a, b).len(), "max or min of {:?} and {:?}", a, b); if a == b { ensure!(hash(&x) == hash(&y), "hashes"); } } Ok(()) }); }
    // concatenation ambiguity: maps of maps hash and compare by content
    cx.case(|| "partial order with incomparable values".into(), || { let mut a: BTreeMap<u32, f64> = BTreeMap::new(); let mut b: BTreeMap<u32, f64> = BTreeMap::new(); a.try_insert(1, f64::NAN).unwrap(); b.try_insert(1, f64::NAN).unwrap(); ensure!(a != b && a.partial_cmp(&b).is_none(), "NaN"); ensure!(!(a == a) && a != a && a.partial_cmp(&a).is_none() && !(a <= a) && !(a >= a), "a map holding NaN against itself"); b.try_insert(0, 1.0).unwrap(); ensure!(a.partial_cmp(&b) == Some(std::cmp::Ordering::Greater), "order"); Ok(()) });
}
