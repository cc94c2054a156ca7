//! BTreeSet: C18 and the set parts of C13, C14, C15, C16, C19, C20.
use crate::rt::*;
use crate::mapx::{bad_range, bound};
use fallible_collections::btree::BTreeSet;
use std::collections::BTreeSet as S;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn mk(s: &S<u32>, order: usize) -> BTreeSet<u32> { let mut h = BTreeSet::new(); let mut v: Vec<u32> = s.iter().copied().collect(); if order % 2 == 1 { v.reverse(); } for x in v { h.try_insert(x).unwrap(); } h }
fn mke(s: &S<u32>) -> BTreeSet<E> { let mut h = BTreeSet::new(); for x in s { h.try_insert(E::new(*x)).unwrap(); } h }
fn seq(name: &str, it: impl Iterator<Item = u32> + Clone, want: &[u32]) -> R {
    let mut it = it;
    for (i, w) in want.iter().enumerate() {
        let (lo, hi) = it.size_hint(); let left = want.len() - i;
        ensure!(lo <= left && hi.map_or(true, |h| left <= h), "{}: size_hint ({}, {:?}) with {} elements left", name, lo, hi, left);
        if i == want.len() / 2 { ensure!(it.clone().eq(want[i..].iter().copied()), "{}: a clone of the iterator differs", name); }
        let g = it.next(); ensure!(g == Some(*w), "{}: element {} is {:?} instead of {}", name, i, g, w);
    }
    let (lo, hi) = it.size_hint(); ensure!(lo == 0 && hi != None || lo == 0, "{}: size_hint ({}, {:?}) at the end", name, lo, hi);
    ensure!(it.next().is_none() && it.next().is_none(), "{}: yields more than {} elements", name, want.len());
    Ok(())
}
fn consumers(a: &S<u32>, b: &S<u32>) -> R {
    let (x, y) = (mk(a, 0), mk(b, 1)); let w = |v: Vec<&u32>| -> Vec<u32> { v.into_iter().copied().collect() };
    let (u, i, d, s) = (w(a.union(b).collect()), w(a.intersection(b).collect()), w(a.difference(b).collect()), w(a.symmetric_difference(b).collect()));
    provided!(front "union", x.union(&y), u, |v: &u32| *v); provided!(front "intersection", x.intersection(&y), i, |v: &u32| *v);
    provided!(front "difference", x.difference(&y), d, |v: &u32| *v); provided!(front "symmetric_difference", x.symmetric_difference(&y), s, |v: &u32| *v);
    Ok(())
}
fn pair(a: &S<u32>, b: &S<u32>, o: usize) -> R {
    let (x, y) = (mk(a, o), mk(b, o / 2));
    let w = |v: Vec<&u32>| -> Vec<u32> { v.into_iter().copied().collect() };
    let (u, i, d, s) = (w(a.union(b).collect()), w(a.intersection(b).collect()), w(a.difference(b).collect()), w(a.symmetric_difference(b).collect()));
    seq("union", x.union(&y).copied(), &u)?; seq("intersection", x.intersection(&y).copied(), &i)?; seq("difference", x.difference(&y).copied(), &d)?; seq("symmetric_difference", x.symmetric_difference(&y).copied(), &s)?;
    ensure!((&x | &y).iter().copied().eq(u.iter().copied()) && (&x & &y).iter().copied().eq(i.iter().copied()) && (&x - &y).iter().copied().eq(d.iter().copied()) && (&x ^ &y).iter().copied().eq(s.iter().copied()), "an operator differs");
    ensure!((&x | &y).len() == u.len(), "len");
    ensure!(x.is_subset(&y) == a.is_subset(b), "is_subset gave {}", x.is_subset(&y)); ensure!(x.is_superset(&y) == a.is_superset(b), "is_superset gave {}", x.is_superset(&y)); ensure!(x.is_disjoint(&y) == a.is_disjoint(b), "is_disjoint gave {}", x.is_disjoint(&y));
    ensure!(x.union(&y).min() == a.union(b).min() && x.intersection(&y).min() == a.intersection(b).min() && x.difference(&y).min() == a.difference(b).min() && x.symmetric_difference(&y).min() == a.symmetric_difference(b).min(), "min");
    ensure!(x.len() == a.len() && y.len() == b.len(), "operands changed");
    ensure!(format!("{:?}", x.union(&y)).len() > 0 && format!("{:?}{:?}{:?}", x.intersection(&y), x.difference(&y), x.symmetric_difference(&y)).len() > 0, "Debug");
    Ok(())
}
pub fn c18(cx: &mut Ctx) {
    for a in 0..64u32 { cx.distinct += 64; cx.case(|| format!("all subsets of 0..6 against mask {:06b}", a), || { let set = |m: u32| -> S<u32> { (0..6).filter(|i| m >> i & 1 == 1).collect() }; for b in 0..64 { pair(&set(a), &set(b), (a + b) as usize).map_err(|e| format!("{:?} and {:?}: {}", set(a), set(b), e))?; } Ok(()) }); }
    // around the switch of strategy
    for small in 0..6usize { for big in [0usize, 1, 15, 16, 17, 31, 32, 33, 34, 48, 49, 64, 79, 80, 81, 82, 95, 96, 97, 120] { for mode in 0..6u32 {
        cx.distinct += 2;
        cx.case(|| format!("{} against {} elements, mode {}", small, big, mode), || {
            let b: S<u32> = (0..big as u32).map(|i| 3 * i + 10).collect(); let n = big.max(1) as u32;
            let a: S<u32> = (0..small as u32).map(|i| match mode { 0 => 10 + 3 * (i * 7 % n), 1 => 11 + 3 * i, 2 => i, 3 => 100000 + i, 4 => 10 + 3 * (n - 1 - i.min(n - 1)), _ => if i % 2 == 0 { 10 + 3 * (i % n) } else { 9 + 3 * i } }).collect();
            pair(&a, &b, 0)?; pair(&b, &a, 1)?; if big % 16 == 1 && small % 2 == 1 { consumers(&a, &b)?; consumers(&b, &a)?; } Ok(())
        });
    } } }
    for i in 0..cx.n(1500) { if cx.out_of_time() { return; } let s = cx.seed * 433 + i; cx.distinct += 1; cx.case(|| format!("random pair {}", s), || { let mut rng = Rng::new(s); let mut g = || -> S<u32> { let n = [0, 3, 12, 40, 150][rng.below(5)]; let u = [10, 50, 400][rng.below(3)]; let base = rng.below(3) as u32 * 60; (0..n).map(|_| base + rng.below(u) as u32).collect() }; let (a, b) = (g(), g()); pair(&a, &b, i as usize)?; if i % 16 == 0 { consumers(&a, &b)?; } let c: S<u32> = a.iter().copied().filter(|x| x % 3 != 1).collect(); pair(&c, &a, 0)?; pair(&a, &c, 0) }); }
}
/// Sets of thousands of elements: the same and very different sizes, on either side.
pub fn c18_large(cx: &mut Ctx) {
    for big in [1001usize, 2500, 6000] { for small in [0usize, 1, 3, 17, 62, 63, 157, 1001, 5000] { for mode in 0..4u32 {
        if cx.out_of_time() { return; }
        cx.distinct += 2;
        cx.case(|| format!("{} against {} elements, mode {}", small, big, mode), || {
            let n = big as u32; let b: S<u32> = (0..n).map(|i| 3 * i + 10).collect();
            let a: S<u32> = (0..small as u32).map(|i| match mode { 0 => 10 + 3 * (i * 7919 % n), 1 => 11 + 3 * i, 2 => 10 + 3 * (n - 1 - i % n), _ => i * 3 + i % 2 + n }).collect();
            pair(&a, &b, 0)?; pair(&b, &a, 1) });
    } } }
}
pub fn c13(cx: &mut Ctx) {
    for n in [0usize, 1, 5, 11, 12, 40, 150] { for p in 0..5usize { cx.distinct += 1; cx.case(|| format!("set iteration, {} elements, pattern {}", n, p), || {
        let s: S<u32> = (0..n as u32).map(|i| i * 2).collect(); let h = mke(&s); let w: Vec<u32> = s.iter().copied().collect();
        macro_rules! go { ($it:expr) => {{ let mut it = $it; let (mut a, mut b) = (0, n); let mut rng = Rng::new(p as u64); let mut i = 0; loop { ensure!(it.len() == b - a && it.size_hint() == (b - a, Some(b - a)), "len {} with {} left", it.len(), b - a); let f = match p { 0 => true, 1 => false, 2 => i % 2 == 0, _ => rng.below(2) == 0 }; i += 1; let g = if f { it.next().map(|e| e.v) } else { it.next_back().map(|e| e.v) }; let x = if a < b { if f { a += 1; Some(w[a - 1]) } else { b -= 1; Some(w[b]) } } else { None }; ensure!(g == x, "gave {:?} instead of {:?}", g, x); if x.is_none() { break; } } ensure!(it.next().is_none() && it.next_back().is_none(), "yields again"); }} }
        go!(h.iter()); go!((&h).into_iter()); { let mut it = h.iter(); it.next(); ensure!(it.clone().map(|e| e.v).eq(w.iter().skip(1).copied()), "clone"); }
        ensure!(h.iter().min().map(|e| e.v) == w.first().copied() && h.iter().max().map(|e| e.v) == w.last().copied() && h.iter().last().map(|e| e.v) == w.last().copied(), "min, max or last");
        if p == 0 && n < 100 { provided!(both "set iter", h.iter(), w, |e: &E| { e.check(); e.v }); provided!(both "set range", h.range::<u32, _>(..), w, |e: &E| { e.check(); e.v }); provided!(both "set into_iter", mke(&s).into_iter(), w, |e: E| { e.check(); e.v }); }
        go!(h.into_iter()); Ok(()) }); } }
}
pub fn c14(cx: &mut Ctx) {
    for n in [0usize, 1, 5, 12, 30] { cx.distinct += 1; cx.case(|| format!("set ranges over {} elements", n), || {
        let s: S<u32> = (0..n as u32).map(|i| i * 2).collect(); let h = mke(&s); let top = 2 * n as u32 + 2;
        for a in 0..top { for b in 0..top { for (x, y) in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2)] { let (l, r) = (bound(x, a), bound(y, b));
            if bad_range(&l, &r) { ensure!(catch_unwind(AssertUnwindSafe(|| h.range::<u32, (Bound<u32>, Bound<u32>)>((l, r)).next().is_some())).is_err(), "no panic for ({:?}, {:?})", l, r); continue; }
            let w: Vec<u32> = s.range((l, r)).copied().collect(); ensure!(h.range::<u32, (Bound<u32>, Bound<u32>)>((l, r)).map(|e| e.v).eq(w.iter().copied()), "range ({:?}, {:?})", l, r); ensure!(h.range::<u32, (Bound<u32>, Bound<u32>)>((l, r)).rev().map(|e| e.v).eq(w.iter().rev().copied()), "reverse range ({:?}, {:?})", l, r);
            let mut it = h.range::<u32, (Bound<u32>, Bound<u32>)>((l, r)); let (mut i, mut j) = (0, w.len()); while i < j { ensure!(it.next().map(|e| e.v) == Some(w[i]), "front"); i += 1; if i < j { j -= 1; ensure!(it.next_back().map(|e| e.v) == Some(w[j]), "back"); } } ensure!(it.clone().next().is_none() && it.next().is_none() && it.next_back().is_none(), "yields more"); } } }
        Ok(()) }); }
}
pub fn c15(cx: &mut Ctx) {
    for n in [0usize, 1, 5, 11, 12, 13, 40, 150] { for cut in (0..=2 * n as u32 + 1).step_by(1 + n / 20) { cx.distinct += 1; cx.case(|| format!("set try_split_off({}) of {} elements, then append", cut, n), || {
        let mut s: S<u32> = (0..n as u32).map(|i| i * 2).collect(); let mut h = mke(&s); let mut o = h.try_split_off(&cut).map_err(|_| "Err")?; let mut so = s.split_off(&cut);
        ensure!(h.iter().map(|e| e.v).eq(s.iter().copied()) && o.iter().map(|e| e.v).eq(so.iter().copied()) && h.len() == s.len() && o.len() == so.len(), "parts differ");
        for i in 0..10 { o.try_insert(E::new(i)).map_err(|_| "Err")?; so.insert(i); } h.append(&mut o); s.append(&mut so); ensure!(h.iter().map(|e| e.v).eq(s.iter().copied()) && o.is_empty() && h.len() == s.len(), "append differs"); Ok(()) }); } }
}
/// Elements 0, 3, 6, .. put in in one of several orders, some with removals in between: leaves from nearly empty to full on either side of every key of the inner nodes.
pub fn grown(n: u32, order: usize) -> Vec<(bool, u32)> {
    let mut v: Vec<u32> = (0..n).map(|i| i * 3).collect();
    match order { 0 => {} 1 => v.reverse(), 2 => { let (a, b) = v.split_at(n as usize / 2); let mut o = vec![]; for i in 0..b.len() { o.push(b[i]); if i < a.len() { o.push(a[a.len() - 1 - i]); } } v = o; } 3 => { let mut o: Vec<u32> = v.iter().copied().step_by(12).collect(); for r in (1..12).rev() { o.extend(v.iter().copied().skip(r).step_by(12)); } v = o; } _ => { let mut rng = Rng::new(n as u64 * 31 + order as u64); for i in (1..v.len()).rev() { v.swap(i, rng.below(i + 1)); } } }
    let mut ops: Vec<(bool, u32)> = v.into_iter().map(|x| (true, x)).collect();
    if order >= 5 { let mut rng = Rng::new(n as u64 + order as u64); for i in 0..n { let x = rng.below(n as usize) as u32 * 3; ops.push((false, x)); if i % 3 > 0 { ops.push((true, rng.below(n as usize) as u32 * 3)); } } }
    ops
}
/// Every element replaced, inserted again and looked up, every gap filled, with and without memory.
pub fn every(cx: &mut Ctx, what: &'static str) {
    for n in [1u32, 2, 11, 12, 13, 14, 16, 17, 18, 19, 23, 24, 29, 36, 48, 67, 80, 101, 150, 160, 230, 400, 900] { for order in 0..8 { for af in if what == "C16" { vec![0i64, 1, 2] } else { vec![-1] } {
        if cx.out_of_time() || n > 200 && af > 0 { continue; }
        cx.distinct += 1; cx.case(|| format!("every element of {} (order {}) replaced, inserted again and inserted next to, allocation {} fails", n, order, af), || {
        let mut h: BTreeSet<E> = BTreeSet::new(); let mut m: std::collections::BTreeMap<u32, usize> = Default::default();
        for (put, x) in grown(n, order) { if put { let e = E::new(x); let id = e.id; if h.try_insert(e).map_err(|_| "Err")? { m.insert(x, id); } } else { h.remove(&x); m.remove(&x); } }
        let same = |h: &BTreeSet<E>, m: &std::collections::BTreeMap<u32, usize>, k: u32, what: &str, e: bool| -> R { ensure!(h.len() == m.len() && h.iter().map(|e| (e.v, e.id)).eq(m.iter().map(|(a, b)| (*a, *b))), "{}({}) {}: the elements are not those expected", what, k, if e { "Ok" } else { "Err" }); Ok(()) };
        let keys: Vec<u32> = m.keys().copied().collect();
        for (i, &k) in keys.iter().enumerate() {
            let e = E::new(k); let id = e.id;
            let r = with_alloc_fail(af, || h.replace(e)); let ok = r.is_ok(); if let Ok(old) = r { ensure!(old.as_ref().map(|e| e.id) == m.insert(k, id), "replace({}) returned {:?}", k, old); }
            same(&h, &m, k, "replace", ok)?;
            let e = E::new(k); let r = with_alloc_fail(af, || h.try_insert(e)); let ok = r.is_ok(); if let Ok(new) = r { ensure!(!new, "try_insert({}) of a present element reported it as new", k); }
            same(&h, &m, k, "try_insert", ok)?;
            let g = k + 1 + i as u32 % 2; let e = E::new(g); let id = e.id;
            let r = with_alloc_fail(af, || if i % 2 == 0 { h.try_insert(e) } else { h.replace(e).map(|o| o.is_none()) }); let ok = r.is_ok(); if let Ok(new) = r { ensure!(new, "{} is reported as present", g); m.insert(g, id); }
            same(&h, &m, g, if i % 2 == 0 { "try_insert" } else { "replace" }, ok)?;
            if i % 4 != 3 { let t = if i % 2 == 0 { h.take(&g).map(|e| e.id) } else { h.get(&g).map(|e| e.id).filter(|_| h.remove(&g)) }; ensure!(t == m.remove(&g), "take({}) gave {:?}", g, t); }
            ensure!(reg_live() == m.len() as i64, "{} elements alive, {} in the set", reg_live(), m.len());
        }
        Ok(()) }); } } }
}
pub fn c16(cx: &mut Ctx) {
    for n in [0usize, 1, 10, 11, 12, 17, 47, 66, 67, 143, 155, 300] { for af in 0..5i64 { for op in 0..3 { for pos in 0..4u32 { cx.distinct += 1; cx.case(|| format!("set {} at position {} of {} elements, allocation {} fails", ["try_insert", "replace", "try_split_off"][op], pos, n, af), || {
        let mut s: S<u32> = (0..n as u32).map(|i| i * 2).collect(); let mut h = mke(&s); let k = (2 * n as u32 / 3 * pos) | 1; let e = E::new(k); let live = reg_live() - 1;
        let ok = match op { 0 => with_alloc_fail(af, || h.try_insert(e)).is_ok(), 1 => with_alloc_fail(af, || h.replace(e)).is_ok(), _ => { drop(e); match with_alloc_fail(af, || h.try_split_off(&k)) { Ok(mut o) => { let so = s.split_off(&k); ensure!(o.iter().map(|e| e.v).eq(so.iter().copied()), "split part"); o.clear(); true } Err(_) => false } } };
        if ok { if op < 2 { s.insert(k); } } else { ensure!(reg_live() == live, "the rejected element was not dropped once"); }
        ensure!(h.len() == s.len() && h.iter().map(|e| e.v).eq(s.iter().copied()), "contents differ after {}", if ok { "Ok" } else { "Err" });
        for i in 0..30u32 { h.try_insert(E::new(i * 5)).map_err(|_| "Err")?; s.insert(i * 5); } ensure!(h.iter().map(|e| e.v).eq(s.iter().copied()), "unusable afterwards"); Ok(()) }); } } } }
}
pub fn c19(cx: &mut Ctx) {
    for i in 0..cx.n(500) { if cx.out_of_time() { return; } let sd = cx.seed * 577 + i; cx.distinct += 1; cx.case(|| format!("random set history {}", sd), || {
        let mut rng = Rng::new(sd); let keys = [6, 30, 200][rng.below(3)]; let mut h: BTreeSet<E> = BTreeSet::new(); let mut m: std::collections::BTreeMap<u32, usize> = Default::default();
        for _ in 0..150 { let k = rng.below(keys) as u32; let was = m.get(&k).copied(); let e = E::new(k); let id = e.id;
            match rng.below(7) {
                0 | 1 => { let r = h.try_insert(e).map_err(|_| "Err")?; ensure!(r == was.is_none(), "try_insert({}) gave {}", k, r); m.entry(k).or_insert(id); }
                2 => { let r = h.replace(e).map_err(|_| "Err")?; ensure!(r.as_ref().map(|e| e.id) == was, "replace({}) gave {:?}", k, r); m.insert(k, id); }
                3 => { let r = h.take(&k); ensure!(r.as_ref().map(|e| e.id) == was, "take({}) gave {:?}", k, r); m.remove(&k); }
                4 => { let r = h.remove(&k); ensure!(r == was.is_some(), "remove({}) gave {}", k, r); m.remove(&k); }
                5 => { let c = h.contains(&k); ensure!(c == was.is_some(), "contains({}) gave {}", k, c); ensure!(h.get(&k).map(|e| e.id) == was, "get({})", k); }
                _ => { if rng.below(30) == 0 { h.clear(); m.clear(); } } }
            ensure!(h.len() == m.len() && h.is_empty() == m.is_empty(), "len"); }
        ensure!(h.iter().map(|e| (e.v, e.id)).eq(m.iter().map(|(a, b)| (*a, *b))), "contents differ"); Ok(()) }); }
}
pub fn c20(cx: &mut Ctx) {
    use std::collections::hash_map::DefaultHasher; use std::hash::{Hash, Hasher};
    fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
    for a in 0..64u32 { cx.distinct += 1; cx.case(|| format!("set comparisons against mask {:b}", a), || { let set = |m: u32| -> S<u32> { (0..6).filter(|i| m >> i & 1 == 1).collect() }; for b in 0..64 { let (x, y) = (set(a), set(b)); let (p, q) = (mk(&x, 0), mk(&y, 1)); ensure!((p == q) == (x == y) && p.cmp(&q) == x.cmp(&y) && p.partial_cmp(&q) == x.partial_cmp(&y), "{:?} against {:?}", x, y); ensure!((p != q) == (x != y) && (p < q) == (x < y) && (p <= q) == (x <= y) && (p > q) == (x > y) && (p >= q) == (x >= y), "an operator on {:?} and {:?}", x, y); ensure!(x != y || hash(&p) == hash(&q), "hash"); ensure!(format!("{:?}", p) == format!("{:?}", x), "Debug"); } Ok(()) }); }
}
