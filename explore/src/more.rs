//! Unusual element types (zero-sized, one byte, over-aligned, large) and tall trees, long vectors.
use crate::rt::*;
use fallible_collections::vec::{FallibleVec, TryCollect};
use fallible_collections::{TryClone, TryReserveError, TryVec};
use std::convert::TryFrom;

/// An element type: built from a number and able to tell whether it still is that element, in place.
pub trait It: Ord + Clone + TryClone + std::hash::Hash + std::fmt::Debug { const DOM: u32; fn mk(v: u32) -> Self; fn same(&self, v: u32) -> bool; }
fn placed<T>(t: &T) -> bool { t as *const T as usize % std::mem::align_of::<T>() == 0 }
impl It for u8 { const DOM: u32 = 256; fn mk(v: u32) -> u8 { v as u8 } fn same(&self, v: u32) -> bool { *self == v as u8 } }
impl It for u32 { const DOM: u32 = u32::MAX; fn mk(v: u32) -> u32 { v } fn same(&self, v: u32) -> bool { placed(self) && *self == v } }
impl It for E { const DOM: u32 = u32::MAX; fn mk(v: u32) -> E { E::new(v) } fn same(&self, v: u32) -> bool { self.check(); placed(self) && self.v == v } }
/// Nothing at all.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct N;
impl TryClone for N { fn try_clone(&self) -> Result<N, TryReserveError> { Ok(N) } }
impl It for N { const DOM: u32 = 1; fn mk(_: u32) -> N { N } fn same(&self, _: u32) -> bool { true } }
/// Zero-sized, every value counted as alive until dropped.
pub struct Z(());
impl Drop for Z { fn drop(&mut self) { reg_add(-1) } }
impl Clone for Z { fn clone(&self) -> Z { reg_add(1); Z(()) } }
impl TryClone for Z { fn try_clone(&self) -> Result<Z, TryReserveError> { Ok(self.clone()) } }
impl PartialEq for Z { fn eq(&self, _: &Z) -> bool { true } }
impl Eq for Z {}
impl PartialOrd for Z { fn partial_cmp(&self, o: &Z) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Z { fn cmp(&self, _: &Z) -> std::cmp::Ordering { std::cmp::Ordering::Equal } }
impl std::hash::Hash for Z { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }
impl std::fmt::Debug for Z { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Z") } }
impl It for Z { const DOM: u32 = 1; fn mk(_: u32) -> Z { reg_add(1); Z(()) } fn same(&self, _: u32) -> bool { placed(self) } }
macro_rules! odd { ($($n:ident $a:literal $pad:literal;)*) => { $(
    #[repr(align($a))] #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct $n { e: E, pad: [u8; $pad] }
    impl TryClone for $n { fn try_clone(&self) -> Result<$n, TryReserveError> { Ok($n { e: self.e.try_clone()?, pad: self.pad }) } }
    impl It for $n { const DOM: u32 = u32::MAX; fn mk(v: u32) -> $n { $n { e: E::new(v), pad: [v as u8; $pad] } }
        fn same(&self, v: u32) -> bool { self.e.check(); placed(self) && self.e.v == v && self.pad[0] == v as u8 && self.pad[$pad - 1] == v as u8 } }
)* } }
odd! { A16 16 1; A64 64 1; A4096 4096 1; B150 1 150; B1500 1 1500; }
/// Large and without a destructor.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct P([u64; 40]);
impl TryClone for P { fn try_clone(&self) -> Result<P, TryReserveError> { Ok(*self) } }
impl It for P { const DOM: u32 = u32::MAX; fn mk(v: u32) -> P { P([v as u64; 40]) } fn same(&self, v: u32) -> bool { placed(self) && self.0[0] == v as u64 && self.0[39] == v as u64 } }
/// One byte with a destructor.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct S1(u8);
impl Drop for S1 { fn drop(&mut self) { reg_add(-1) } }
impl Clone for S1 { fn clone(&self) -> S1 { reg_add(1); S1(self.0) } }
impl TryClone for S1 { fn try_clone(&self) -> Result<S1, TryReserveError> { Ok(self.clone()) } }
impl It for S1 { const DOM: u32 = 256; fn mk(v: u32) -> S1 { reg_add(1); S1(v as u8) } fn same(&self, v: u32) -> bool { self.0 == v as u8 } }

// -------------------------------------------------------------------------------- vectors
fn vmk<T: It>(n: usize, from: u32) -> Vec<T> { (0..n as u32).map(|i| T::mk((from + i) % T::DOM)).collect() }
fn vis<T: It>(v: &[T], want: &[u32], what: &str) -> R {
    ensure!(v.len() == want.len(), "{}: {} elements instead of {}", what, v.len(), want.len());
    for (i, (a, b)) in v.iter().zip(want).enumerate() { ensure!(a.same(*b % T::DOM), "{}: element {} is {:?} instead of {}", what, i, a, b % T::DOM); }
    Ok(())
}
fn vops<T: It>(what: &str, len: usize, spare: usize, n: usize, op: usize, fail: bool) -> R {
    let mut v: Vec<T> = Vec::with_capacity(len + spare); for i in 0..len { v.push(T::mk(i as u32 % T::DOM)); }
    let (p, c) = (v.as_ptr(), v.capacity());
    let start: Vec<u32> = (0..len as u32).collect(); let mut want = start.clone();
    let mut o: Vec<T> = if matches!(op, 2 | 4 | 8) { vmk(n, 1000) } else { vec![] };
    let more: Vec<u32> = (1000..1000 + n as u32).collect();
    let at = n.min(len);
    let e = T::mk(77 % T::DOM); let mut given = None;
    match op { 0 | 1 => want.push(77), 2 | 4 => want.extend(more.iter()), 3 => { want.truncate(n); let l = want.len(); want.extend((l..n).map(|i| 2000 + (i - l) as u32)); } 5 => want.insert(at, 77), 7 => want.resize(n, 77), _ => {} }
    let af = if fail { 0 } else { -1 }; let b = allocs();
    let mut k = 0;
    let r: Result<(), ()> = with_alloc_fail(af, || match op {
        0 => v.try_push(e).map_err(|_| ()),
        1 => v.try_push_give_back(e).map_err(|(x, _)| { given = Some(x); }),
        2 => v.try_append(&mut o).map_err(|_| ()),
        3 => v.try_resize_with(n, || { k += 1; T::mk((1999 + k) % T::DOM) }).map_err(|_| ()),
        4 => v.try_extend_from_slice_no_copy(&o).map_err(|_| ()),
        5 => FallibleVec::try_insert(&mut v, at, e).map_err(|(x, _)| { given = Some(x); }),
        6 => FallibleVec::try_reserve(&mut v, n).map_err(|_| ()),
        7 => v.try_resize_no_copy(n, e).map_err(|_| ()),
        _ => { drop(e); Ok(()) }
    });
    let used = allocs() - b;
    let fits = if op == 6 { len.saturating_add(n) <= c } else { want.len() <= c };
    match r {
        Ok(()) => { vis(&v, &want, "contents")?; if op == 2 { ensure!(o.is_empty(), "other is not empty"); }
            if what == "C05" && op < 8 { if fits { ensure!(used == 0 && v.as_ptr() == p && v.capacity() == c, "allocated although the result fits"); } if op == 6 { ensure!(v.capacity() - v.len() >= n, "room for {} after reserving {}", v.capacity() - v.len(), n); } } }
        Err(()) => { if what == "C05" { ensure!(!fits, "failed although the result fits"); } ensure!(fail, "failed without a reason");
            if what == "C02" { vis(&v, &start, "after Err")?; if op == 2 || op == 4 { vis(&o, &more, "other after Err")?; } if matches!(op, 1 | 5) { ensure!(given.as_ref().map_or(false, |g| g.same(77 % T::DOM)), "the element was not handed back"); } } }
    }
    drop(given);
    if op == 8 && !fail && matches!(what, "C01" | "C04" | "C06") {
        let c = v.try_clone().map_err(|_| "try_clone failed")?; vis(&c.into_iter().collect::<Vec<T>>(), &start, "clone")?;
        let t = TryVec::try_from(&v[..]).map_err(|_| "try_from failed")?; vis(&t, &start, "TryVec from a slice")?; let t2 = t.try_clone().map_err(|_| "try_clone failed")?; vis(&t2, &start, "clone of a TryVec")?; vis(&t, &start, "after the clone")?;
        let t3: TryVec<TryVec<T>> = TryVec::from(vec![t, t2]); let j = t3.concat().map_err(|_| "concat failed")?; let two: Vec<u32> = start.iter().chain(&start).copied().collect(); vis(&j, &two, "concat")?; ensure!(j.into_iter().enumerate().all(|(i, x)| x.same(two[i] % T::DOM)), "into_iter");
        let got: Result<Vec<T>, _> = o.try_collect(); vis(&got.map_err(|_| "try_collect failed")?, &more, "try_collect")?;
        #[cfg(feature = "tree")] { let f = T::mk(9 % T::DOM); let w = fallible_collections::try_vec![f; n].map_err(|_| "try_vec! failed")?; vis(&w, &vec![9; n], "try_vec!")?; }
    }
    Ok(())
}
fn vtype<T: It>(cx: &mut Ctx, what: &'static str, name: &str) {
    for len in [0usize, 1, 3, 4, 5, 21] { for spare in [0usize, 2, 9] { for n in [0usize, 1, 2, 5, 30] { for op in 0..9 { for fail in [false, true] {
        if fail && matches!(what, "C01" | "C06") || what == "C06" && op != 8 { continue; }
        cx.distinct += 1;
        cx.case(|| format!("{}: {} of {} on {} elements with spare capacity {}{}", name, ["try_push", "try_push_give_back", "try_append", "try_resize_with", "try_extend_from_slice_no_copy", "try_insert", "try_reserve", "try_resize_no_copy", "clones and collections"][op], n, len, spare, if fail { ", no memory" } else { "" }), || vops::<T>(what, len, spare, n, op, fail));
    } } } } }
}
pub fn vectors(cx: &mut Ctx, what: &'static str) {
    vtype::<u8>(cx, what, "u8"); vtype::<Z>(cx, what, "zero-sized with a destructor"); vtype::<S1>(cx, what, "one byte with a destructor"); vtype::<A64>(cx, what, "aligned to 64"); vtype::<A4096>(cx, what, "aligned to 4096"); vtype::<B150>(cx, what, "150 bytes"); vtype::<B1500>(cx, what, "1500 bytes"); vtype::<P>(cx, what, "320 bytes, Copy");
    if what == "C05" { return; }
    // long vectors
    for len in [0usize, 200, 255, 256, 1000, 1025, 4096, 5000, 66_000] { for n in [1usize, 101, 256, 1001, 4097, 66_000] { for op in 0..9 {
        if len + n > 80_000 || what == "C06" && op != 8 || matches!(op, 0 | 1) && n != 1 { continue; }
        for fail in [false, true] {
            if fail && matches!(what, "C01" | "C06") { continue; }
            if fail == false && matches!(what, "C02" | "C03") && op == 8 { continue; }
            cx.distinct += 1;
            cx.case(|| format!("long vectors: operation {} of {} on {} elements{}", op, n, len, if fail { ", no memory" } else { "" }), || { if len % 2 == 0 { vops::<u32>(what, len, 0, n, op, fail) } else { vops::<S1>(what, len, 0, n, op, fail) } });
        }
    } } }
    if what == "C01" || what == "C02" {
        fn copies<T: Copy + PartialEq>(f: impl Fn(u32) -> T, len: usize, spare: usize, n: usize, fail: bool) -> R {
            let af = if fail { 0 } else { -1 }; let mut v: Vec<T> = Vec::with_capacity(len + spare); v.extend((0..len as u32).map(&f)); let fits = n <= v.capacity();
            let r = with_alloc_fail(af, || FallibleVec::try_resize(&mut v, n, f(77))); let mut w: Vec<T> = (0..len as u32).map(&f).collect(); if r.is_ok() { w.resize(n, f(77)); } ensure!(v == w && (r.is_ok() || fail && !fits), "try_resize");
            let mut v: Vec<T> = Vec::with_capacity(len + spare); v.extend((0..len as u32).map(&f)); let add: Vec<T> = (0..n as u32).map(|i| f(i + 100)).collect(); let fits = len + n <= v.capacity(); let r = with_alloc_fail(af, || v.try_extend_from_slice(&add)); let mut w: Vec<T> = (0..len as u32).map(&f).collect(); if r.is_ok() { w.extend(&add); } ensure!(v == w && (r.is_ok() || fail && !fits), "try_extend_from_slice"); ensure!(v.as_ptr() as usize % std::mem::align_of::<T>() == 0, "misaligned"); Ok(())
        }
        for len in [0usize, 1, 2, 9, 40] { for spare in [0usize, 1, 30] { for n in [0usize, 1, 2, 9, 10, 39, 40, 41, 70, 300] { for fail in [false, true] { cx.distinct += 1; cx.case(|| format!("resizing to {} or extending by {} a vector of {} plain elements of several types, spare capacity {}{}", n, n, len, spare, if fail { ", no memory" } else { "" }), || {
            #[derive(Clone, Copy, PartialEq)] #[repr(align(64))] struct C64(u32);
            copies(|i| i as u8, len, spare, n, fail)?; copies(|i| [i as u64; 20], len, spare, n, fail)?; copies(|i| [i as u8; 1500], len, spare, n, fail)?; copies(|_| (), len, spare, n, fail)?; copies(|i| C64(i), len, spare, n, fail)?; copies(|i| (i as u8, i), len, spare, n, fail)?;
            Ok(()) }); } } } }
    }
    if what == "C01" || what == "C02" { for n in [1usize, 3, 100, 1001, 5000, 70_000, 110_000] { for len in [0usize, 300, 5000] { for fail in [false, true] { cx.distinct += 1; cx.case(|| format!("long vectors of plain elements: {} after {}{}", n, len, if fail { ", no memory" } else { "" }), || {
        let af = if fail { 0 } else { -1 }; let old: Vec<u16> = (0..len).map(|i| i as u16).collect(); let add: Vec<u16> = (0..n).map(|i| (i * 7) as u16).collect();
        let mut v = old.clone(); let r = with_alloc_fail(af, || v.try_extend_from_slice(&add)); let mut w = old.clone(); if r.is_ok() { w.extend(&add); } ensure!(v == w && (fail || r.is_ok()), "try_extend_from_slice");
        let mut v = old.clone(); let r = with_alloc_fail(af, || FallibleVec::try_resize(&mut v, n, 9)); let mut w = old.clone(); if r.is_ok() { w.resize(n, 9); } ensure!(v == w && (fail || r.is_ok()), "try_resize");
        let mut t = TryVec::from(old.clone()); let r = with_alloc_fail(af, || t.extend_from_slice(&add)); let mut w = old.clone(); if r.is_ok() { w.extend(&add); } ensure!(t == w && (fail || r.is_ok()), "extend_from_slice");
        #[cfg(feature = "tree")] { match with_alloc_fail(af, || fallible_collections::try_vec![7u16; n]) { Ok(v) => ensure!(v == vec![7u16; n], "try_vec!"), Err(_) => ensure!(fail, "try_vec! failed") } match with_alloc_fail(af, || fallible_collections::try_vec![5u8; n]) { Ok(v) => ensure!(v == vec![5u8; n], "try_vec!"), Err(_) => ensure!(fail, "try_vec! failed") } }
        Ok(()) }); } } } }
}
/// Reservations of every magnitude: refused or kept, never anything else.
pub fn reservations(cx: &mut Ctx) {
    fn go<T: It>(len: usize, spare: usize, n: usize, how: usize) -> R {
        let mut v: Vec<T> = Vec::with_capacity(len + spare); for i in 0..len { v.push(T::mk(i as u32 % T::DOM)); }
        let c = v.capacity(); let want: Vec<u32> = (0..len as u32).collect(); let b = allocs();
        let size = std::mem::size_of::<T>().max(1);
        let r = match how { 0 => FallibleVec::try_reserve(&mut v, n).is_ok(), 1 => { let mut t = TryVec::from(std::mem::take(&mut v)); let r = t.reserve(n).is_ok(); v = t.into_iter().collect(); r } _ => match <Vec<T> as FallibleVec<T>>::try_with_capacity(n) { Ok(w) => { ensure!(w.capacity() >= n && w.is_empty(), "capacity {} instead of {}", w.capacity(), n); true } Err(_) => false } };
        let used = allocs() - b; vis(&v, &want, "contents")?;
        let possible = if how == 2 { n as u128 * size as u128 <= 1 << 24 } else { (len as u128 + n as u128) * size as u128 <= 1 << 24 } || std::mem::size_of::<T>() == 0 && (how == 2 || len.checked_add(n).is_some());
        let absurd = if std::mem::size_of::<T>() == 0 { how < 2 && len.checked_add(n).is_none() } else { (n as u128) * size as u128 > isize::MAX as u128 };
        ensure!(!possible || r, "refused"); ensure!(!absurd || !r, "accepted an impossible amount");
        if how < 2 && r { ensure!(v.capacity() - v.len() >= n, "room for {} after reserving {}", v.capacity() - v.len(), n); if len as u128 + n as u128 <= c as u128 { ensure!(used == 0, "allocated although the room was there"); } }
        Ok(())
    }
    for how in 0..3 { for len in [0usize, 1, 5, 100] { for spare in [0usize, 1, 50] { for n in [0usize, 1, 17, 63, 300, 1001, 5000, 65_537, 1 << 20, isize::MAX as usize / 24, isize::MAX as usize / 24 + 1, isize::MAX as usize - 1, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX - 5, usize::MAX - 1, usize::MAX] {
        cx.distinct += 5;
        cx.case(|| format!("{} of {} with {} elements and spare capacity {}", ["try_reserve", "TryVec::reserve", "try_with_capacity"][how], n, len, spare), || {
            if n < 1 << 20 || n > 1 << 40 { go::<E>(len, spare, n, how)?; go::<u8>(len, spare, n, how)?; go::<A64>(len, spare, n, how)?; go::<P>(len, spare, n, how)?; } go::<S1>(len, spare, n.max(1), how)?; go::<Z>(len, spare, n, how) });
    } } } }
}

// -------------------------------------------------------------------------------- trees
#[cfg(feature = "tree")]
pub use tree::*;
#[cfg(feature = "tree")]
mod tree {
    use super::*;
    use crate::mapx::{bad_range, bound, build, full, inspect, lookups, range_case, Map, Mod, SHAPES};
    use fallible_collections::btree::map::Entry;
    use fallible_collections::btree::BTreeMap;
    type Bt<K, V> = BTreeMap<K, V>;
    #[cfg(feature = "inspect")] fn sound<K: Ord, V>(h: &Bt<K, V>) -> R { h.verif_check() }
    #[cfg(not(feature = "inspect"))] fn sound<K: Ord, V>(_: &Bt<K, V>) -> R { Ok(()) }
    fn is<K: It, V: It>(h: &Bt<K, V>, m: &Mod) -> R {
        ensure!(h.len() == m.len() && h.is_empty() == m.is_empty(), "len {} instead of {}", h.len(), m.len());
        let mut w = m.iter(); let mut n = 0;
        for (k, v) in h.iter() { match w.next() { Some((a, b)) => ensure!(k.same(*a) && v.same(*b % V::DOM), "entry {} is {:?}: {:?} instead of {:?}", n, k, v, (a, b % V::DOM)), None => return Err("too many entries".into()) } n += 1; }
        ensure!(n == m.len(), "{} entries instead of {}", n, m.len());
        Ok(())
    }
    fn put<K: It, V: It>(h: &mut Bt<K, V>, m: &mut Mod, k: u32, v: u32) -> R {
        let r = h.try_insert(K::mk(k), V::mk(v % V::DOM)).map_err(|_| "try_insert failed")?; let w = m.insert(k, v);
        match (r, w) { (None, None) => Ok(()), (Some(a), Some(b)) if a.same(b % V::DOM) => Ok(()), (a, b) => Err(format!("try_insert({}) returned {:?} instead of {:?}", k, a, b)) }
    }
    fn history<K: It, V: It>(s: u64, what: &str) -> R {
        let mut rng = Rng::new(s); let dom = [12u32, 60, 250][rng.below(3)].min(K::DOM) as usize;
        let mut h: Bt<K, V> = Bt::new(); let mut m = Mod::new();
        ensure!(h.iter().next().is_none() && h.get(&K::mk(0)).is_none() && h.keys().next().is_none() && h.is_empty(), "a new map is not empty"); ensure!(h.range::<K, _>(..).next().is_none() && h.iter_mut().next().is_none() && h.values_mut().next_back().is_none(), "a new map yields"); ensure!(h.remove(&K::mk(0)).is_none() && h.get_mut(&K::mk(0)).is_none(), "a new map holds a key"); { let e: Bt<K, V> = Bt::new(); ensure!(e.into_iter().next().is_none(), "an empty map yields"); }
        for _ in 0..rng.below(2 * dom + 2) { let (k, v) = (rng.below(dom) as u32, rng.below(200) as u32); put(&mut h, &mut m, k, v)?; }
        for step in 0..40 {
            let k = rng.below(dom) as u32; let v = rng.below(200) as u32;
            match rng.below(5) { 0 | 1 => put(&mut h, &mut m, k, v)?, 2 => { let r = h.remove(&K::mk(k)); let w = m.remove(&k); ensure!(r.is_some() == w.is_some() && r.map_or(true, |x| x.same(w.unwrap() % V::DOM)), "remove({})", k); } _ => {} }
            match what {
                "C11" => { let w = m.get(&k).copied(); ensure!(h.contains_key(&K::mk(k)) == w.is_some(), "contains_key({})", k); match (h.get(&K::mk(k)), w) { (None, None) => {} (Some(a), Some(b)) if a.same(b % V::DOM) => {} (a, b) => return Err(format!("get({}) gave {:?} instead of {:?}", k, a, b)) }
                    if let Some(x) = h.get_mut(&K::mk(k)) { *x = V::mk(v % V::DOM); *m.get_mut(&k).ok_or("get_mut of an absent key")? = v; } if let Some((a, b)) = h.get_key_value(&K::mk(k)) { ensure!(a.same(k) && b.same(m[&k] % V::DOM), "get_key_value"); } if rng.below(40) == 0 { h.clear(); m.clear(); } }
                "C12" => { sound(&h)?; if step % 8 == 0 { let mut o = h.split_off(&K::mk(k)).map_err(|_| "split_off failed")?; sound(&h)?; sound(&o)?; let c = h.try_clone().map_err(|_| "try_clone failed")?; sound(&c)?; h.append(&mut o); sound(&h)?; sound(&o)?; } continue; }
                "C13" => { if step % 5 != 0 { continue; } let kv: Vec<(u32, u32)> = m.iter().map(|(a, b)| (*a, *b % V::DOM)).collect();
                    macro_rules! ends { ($it:expr, $name:expr, |$x:pat_param, $i:ident| $ok:expr) => {{ let mut it = $it; let (mut a, mut b) = (0, kv.len()); while a < b { ensure!(it.size_hint() == (b - a, Some(b - a)), "{}: size_hint", $name); let f = rng.below(2) == 0; let x = if f { it.next() } else { it.next_back() }; let $i = if f { a += 1; a - 1 } else { b -= 1; b }; match x { Some($x) => ensure!($ok, "{}: another entry at {}", $name, $i), None => return Err(format!("{}: ends early", $name)) } } ensure!(it.next().is_none() && it.next_back().is_none(), "{}: yields too much", $name); }} }
                    ends!(h.iter(), "iter", |(k, v), i| k.same(kv[i].0) && v.same(kv[i].1)); ends!(h.keys(), "keys", |k, i| k.same(kv[i].0)); ends!(h.values(), "values", |v, i| v.same(kv[i].1));
                    ends!(h.iter_mut(), "iter_mut", |(k, v), i| k.same(kv[i].0) && v.same(kv[i].1)); ends!(h.values_mut(), "values_mut", |v, i| v.same(kv[i].1));
                    if step % 10 == 0 { let mut g: Bt<K, V> = Bt::new(); for (a, b) in &kv { g.try_insert(K::mk(*a), V::mk(*b)).map_err(|_| "Err")?; } ends!(g.into_iter(), "into_iter", |(k, v), i| k.same(kv[i].0) && v.same(kv[i].1)); } }
                "C14" => { let (a, b) = (bound(rng.below(3), k), bound(rng.below(3), rng.below(dom) as u32)); if bad_range(&a, &b) { continue; } let w: Vec<(u32, u32)> = m.range((a, b)).map(|(x, y)| (*x, *y % V::DOM)).collect();
                    let cb = |x: std::ops::Bound<u32>| match x { std::ops::Bound::Included(k) => std::ops::Bound::Included(K::mk(k)), std::ops::Bound::Excluded(k) => std::ops::Bound::Excluded(K::mk(k)), _ => std::ops::Bound::Unbounded };
                    let mut n = 0; for (x, y) in h.range::<K, _>((cb(a), cb(b))) { ensure!(n < w.len() && x.same(w[n].0) && y.same(w[n].1), "range ({:?}, {:?}) at {}", a, b, n); n += 1; } ensure!(n == w.len(), "range ({:?}, {:?}) ends early", a, b);
                    for (x, y) in h.range_mut::<K, _>((cb(a), cb(b))).rev() { n -= 1; ensure!(x.same(w[n].0) && y.same(w[n].1), "range_mut ({:?}, {:?}) at {}", a, b, n); *y = V::mk(v % V::DOM); m.insert(w[n].0, v); } ensure!(n == 0, "reverse range ({:?}, {:?}) ends early", a, b); is(&h, &m)?; }
                "C15" => { if step % 4 != 0 { continue; } let mut o = h.split_off(&K::mk(k)).map_err(|_| "split_off failed")?; let mut mo = m.split_off(&k); is(&h, &m)?; is(&o, &mo)?; for i in 0..rng.below(20) as u32 { let k = (k + i * 3) % dom as u32; put(&mut o, &mut mo, k, i)?; } if rng.below(2) == 0 { h.append(&mut o); m.append(&mut mo); } else { o.append(&mut h); mo.append(&mut m); std::mem::swap(&mut o, &mut h); std::mem::swap(&mut mo, &mut m); } is(&h, &m)?; ensure!(o.is_empty() && o.iter().next().is_none(), "the other map is not empty"); }
                "C16" => { let af = rng.below(4) as i64; let (a, b) = (K::mk(k), V::mk(v % V::DOM)); match rng.below(3) { 0 => { if let Ok(mut o) = { drop((a, b)); let q = K::mk(k); with_alloc_fail(af, || h.split_off(&q)) } { let mut mo = m.split_off(&k); is(&o, &mo)?; h.append(&mut o); m.append(&mut mo); } } 1 => { let ok = with_alloc_fail(af, || h.try_entry(a).and_then(|e| e.or_try_insert(b).map(|_| ()))).is_ok(); if ok { m.entry(k).or_insert(v); } } _ => { if with_alloc_fail(af, || h.try_insert(a, b)).is_ok() { m.insert(k, v); } } } is(&h, &m)?; }
                "C17" => { let mut it_left = reg_live(); match rng.below(7) {
                    0 => { let mut o = h.split_off(&K::mk(k)).map_err(|_| "split_off failed")?; let mut mo = m.split_off(&k); ensure!(reg_live() == it_left, "split_off dropped or made elements"); if rng.below(3) == 0 { drop(o); } else { h.append(&mut o); m.append(&mut mo); ensure!(reg_live() == it_left, "append dropped or made elements"); } }
                    1 => { let c = h.try_clone().map_err(|_| "try_clone failed")?; drop(c); ensure!(reg_live() == it_left, "a clone was not dropped once"); if rng.below(4) == 0 { h = h.try_clone().map_err(|_| "try_clone failed")?; } ensure!(reg_live() == it_left, "a clone was not dropped once"); }
                    2 => { let af = rng.below(4) as i64; let (a, b) = (K::mk(k), V::mk(v % V::DOM)); if with_alloc_fail(af, || h.try_insert(a, b)).is_ok() { m.insert(k, v); } it_left = reg_live(); }
                    3 => { if let Ok(Entry::Occupied(e)) = h.try_entry(K::mk(k)) { drop(e.remove_entry()); m.remove(&k); } }
                    4 => { if rng.below(4) > 0 { continue; } let n = rng.below(m.len() + 1); let mut it = std::mem::take(&mut h).into_iter(); for i in 0..n { if (i + step) % 3 == 0 { it.next_back(); } else { it.next(); } } drop(it); m.clear(); ensure!(reg_live() == 0, "{} elements alive", reg_live()); for i in 0..20 { put(&mut h, &mut m, (k + i) % dom as u32, v)?; } }
                    5 => { if rng.below(10) == 0 { h.clear(); m.clear(); ensure!(reg_live() == 0, "{} elements alive in an empty map", reg_live()); } }
                    _ => {} } let _ = it_left; is(&h, &m)?; }
                "C19" => { match h.try_entry(K::mk(k)).map_err(|_| "try_entry failed")? {
                    Entry::Occupied(mut e) => { let w = *m.get(&k).ok_or("Occupied for an absent key")?; ensure!(e.key().same(k) && e.get().same(w % V::DOM), "key or get"); match rng.below(3) { 0 => { let o = e.insert(V::mk(v % V::DOM)); ensure!(o.same(w % V::DOM), "insert"); m.insert(k, v); } 1 => { let (a, b) = e.remove_entry(); ensure!(a.same(k) && b.same(w % V::DOM), "remove_entry"); m.remove(&k); } _ => { *e.into_mut() = V::mk(v % V::DOM); m.insert(k, v); } } }
                    Entry::Vacant(e) => { ensure!(!m.contains_key(&k) && e.key().same(k), "Vacant for a present key"); if rng.below(4) == 0 { let q = e.into_key(); ensure!(q.same(k), "into_key"); } else { let r = e.try_insert(V::mk(v % V::DOM)).map_err(|_| "try_insert failed")?; ensure!(r.same(v % V::DOM), "try_insert"); m.insert(k, v); } } } }
                "C06" => { if step % 8 != 0 { continue; } let mut c = h.try_clone().map_err(|_| "try_clone failed")?; is(&c, &m)?; let mut mc = m.clone(); for i in 0..6 { let k = (k + i * 5) % dom as u32; if i % 2 == 0 { put(&mut c, &mut mc, k, i)?; } else { c.remove(&K::mk(k)); mc.remove(&k); } } is(&c, &mc)?; is(&h, &m)?; let d = h.clone(); is(&d, &m)?; }
                _ => { if step % 8 != 0 { continue; } use std::hash::{Hash, Hasher}; let hash = |t: &Bt<K, V>| { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }; let mut g: Bt<K, V> = Bt::new(); for (a, b) in m.iter().rev() { g.try_insert(K::mk(*a), V::mk(*b % V::DOM)).map_err(|_| "Err")?; } ensure!(g == h && h == g && g.cmp(&h) == std::cmp::Ordering::Equal && hash(&g) == hash(&h) && format!("{:?}", g) == format!("{:?}", h), "equal contents differ"); if let Some(a) = m.keys().nth(step % (m.len() + 1)) { g.remove(&K::mk(*a)); ensure!(g != h && g.cmp(&h) != std::cmp::Ordering::Equal, "different contents are equal"); } }
            }
            if what != "C16" && what != "C17" { ensure!(h.len() == m.len(), "len"); if step % 8 == 0 { is(&h, &m)?; } }
        }
        if what != "C12" { is(&h, &m)?; }
        Ok(())
    }
    fn pair<K: It, V: It>(cx: &mut Ctx, what: &'static str, name: &str, n: u64) {
        for i in 0..n { if cx.out_of_time() { return; } let s = cx.seed * 8191 + i; cx.distinct += 1; cx.case(|| format!("keys and values {}, random history {}", name, s), || history::<K, V>(s, what)); }
    }
    pub fn types(cx: &mut Ctx, what: &'static str) {
        let n = cx.n(12);
        pair::<u8, N>(cx, what, "one byte and none", n); pair::<S1, S1>(cx, what, "of one byte with a destructor", n); pair::<u32, N>(cx, what, "u32 and none", n); pair::<E, N>(cx, what, "E and none", n);
        pair::<Z, Z>(cx, what, "zero-sized", n); pair::<Z, E>(cx, what, "zero-sized keys", n); pair::<E, Z>(cx, what, "zero-sized values with a destructor", n); pair::<u32, E>(cx, what, "plain keys", n); pair::<E, u32>(cx, what, "plain values", n); pair::<E, u8>(cx, what, "byte values", n);
        pair::<A16, u8>(cx, what, "keys aligned to 16", n); pair::<A64, E>(cx, what, "keys aligned to 64", n); pair::<A64, N>(cx, what, "keys aligned to 64, no values", n); pair::<u8, A64>(cx, what, "values aligned to 64", n); pair::<A4096, u32>(cx, what, "keys aligned to 4096", n / 3); pair::<u32, A4096>(cx, what, "values aligned to 4096", n / 3); pair::<A16, A64>(cx, what, "both over-aligned", n);
        pair::<B150, E>(cx, what, "keys of 150 bytes", n); pair::<E, B1500>(cx, what, "values of 1500 bytes", n / 2); pair::<B1500, u32>(cx, what, "keys of 1500 bytes", n / 2); pair::<P, P>(cx, what, "of 320 bytes without a destructor", n / 2); pair::<u8, B150>(cx, what, "byte keys and values of 150 bytes", n);
    }

    // ---------------------------------------------------------------- tall trees
    pub const TALL: &[usize] = &[700, 1300, 4700];
    /// A tall tree, then `f`.
    fn tall(cx: &mut Ctx, sizes: &[usize], f: impl Fn(&mut Ctx, usize, usize)) { for &n in sizes { for s in 0..SHAPES { if cx.out_of_time() { return; } if cx.scale == 1 && n > 2000 && s % 3 == 2 { continue; } f(cx, n, s); } } }
    fn churn(h: &mut Map, m: &mut Mod, rng: &mut Rng, steps: usize, every: usize, check: &dyn Fn(&Map, &Mod) -> R) -> R {
        let top = m.keys().next_back().map_or(8, |k| k + 8) as usize; let mut base = rng.below(top); let mut w = 0;
        for i in 0..steps {
            if w == 0 { base = rng.below(top); w = 30 + rng.below(300); } w -= 1;
            let k = match rng.below(3) { 0 => rng.below(top), _ => (base + w) % top } as u32;
            if rng.below(3) > 0 { let r = h.remove(&k).map(|e| e.v); ensure!(r == m.remove(&k), "remove({}) gave {:?}", k, r); }
            else { let r = h.try_insert(E::new(k), E::new(i as u32)).map_err(|_| "Err")?; ensure!(r.map(|e| e.v) == m.insert(k, i as u32), "try_insert({})", k); }
            if i % every == 0 { check(h, m)?; }
        }
        check(h, m)
    }
    fn drain(h: &mut Map, m: &mut Mod, how: usize, every: usize, check: &dyn Fn(&Map, &Mod) -> R) -> R {
        let mut keys: Vec<u32> = m.keys().copied().collect(); let n = keys.len(); let mut rng = Rng::new(n as u64 + how as u64);
        match how { 0 => {} 1 => keys.reverse(), 2 => for i in (1..n).rev() { let j = rng.below(i + 1); keys.swap(i, j); }, 3 => keys.rotate_left(n / 2), _ => { let (a, b) = keys.split_at(n / 3); let mut a: Vec<u32> = a.to_vec(); a.reverse(); keys = a.into_iter().chain(b.iter().copied()).collect(); } }
        for (i, k) in keys.iter().enumerate() { let r = h.remove(k).map(|e| e.v); ensure!(r == m.remove(k), "remove({}) gave {:?}", k, r); if i % every == 0 { check(h, m)?; } }
        ensure!(h.is_empty() && h.iter().next().is_none(), "not empty"); Ok(())
    }
    pub fn tall_c11(cx: &mut Ctx) {
        let check = |h: &Map, m: &Mod| -> R { full(h, m) };
        for how in 0..5 { for n in [700usize, 4700] { for s in [0usize, 1, 2] { cx.distinct += 1; cx.case(|| format!("remove everything (order {}) from tall shape {} of {} entries", how, s, n), || { let (mut h, mut m) = build(n, s, 43); lookups(&h, &m, (0..2 * n as u32 + 3).step_by(7))?; drain(&mut h, &mut m, how, n / 4, &check) }); } } }
        tall(cx, TALL, |cx, n, s| { cx.distinct += 1; cx.case(|| format!("inserts and removals in tall shape {} of {} entries", s, n), || { let (mut h, mut m) = build(n, s, 43); churn(&mut h, &mut m, &mut Rng::new((n + s) as u64), 1500, 500, &check)?; lookups(&h, &m, (0..2 * n as u32 + 3).step_by(3)) }); });
        for s in [0usize, 1, 2] { cx.distinct += 1; cx.case(|| format!("shape {} of 33000 entries", s), || { let (mut h, mut m) = build(33_000, s, 47); lookups(&h, &m, (0..66_003).step_by(5))?; churn(&mut h, &mut m, &mut Rng::new(s as u64), 3000, 3000, &check) }); }
    }
    pub fn tall_c12(cx: &mut Ctx) {
        let check = |h: &Map, _: &Mod| -> R { inspect(h) };
        for how in 0..5 { for n in [700usize, 4700] { for s in [0usize, 1, 2] { cx.distinct += 1; cx.case(|| format!("structure while removing everything (order {}) from tall shape {} of {} entries", how, s, n), || { let (mut h, mut m) = build(n, s, 43); inspect(&h)?; drain(&mut h, &mut m, how, n / 40, &check) }); } } }
        tall(cx, TALL, |cx, n, s| { cx.distinct += 2; cx.case(|| format!("structure of tall shape {} of {} entries", s, n), || { let (mut h, mut m) = build(n, s, 43); inspect(&h)?; churn(&mut h, &mut m, &mut Rng::new((n + s) as u64), 1200, 40, &check) });
            for cut in cuts(n) { cx.distinct += 1; cx.case(|| format!("structure of tall shape {} of {} entries split at {} and rejoined", s, n, cut), || { let (mut h, _) = build(n, s, 43); let mut o = h.split_off(&cut).map_err(|_| "Err")?; inspect(&h)?; inspect(&o)?; if cut % 2 == 0 { let c = o.try_clone().map_err(|_| "Err")?; inspect(&c)?; } h.append(&mut o); inspect(&h)?; inspect(&o) }); } });
    }
    fn cuts(n: usize) -> Vec<u32> { let t = 2 * n as u32; if n < 2000 { vec![0, 1, 3, 21, 23, t / 9, t / 4 + 1, t / 2, t / 2 + 13, t - t / 7, t - 25, t - 3, t - 1, t + 1] } else { vec![2, t / 5, t / 2 + 1, t - 40, t - 2] } }
    pub fn tall_c14(cx: &mut Ctx) {
        tall(cx, TALL, |cx, n, s| { cx.distinct += 1; cx.case(|| format!("ranges over tall shape {} of {} entries", s, n), || { let (mut h, m) = build(n, s, 43); let top = m.keys().next_back().map_or(3, |k| k + 3) as usize; let mut rng = Rng::new(n as u64 + s as u64);
            for i in 0..30 { let a = rng.below(top); let b = if i % 6 == 0 { rng.below(top) } else { (a + rng.below(60)).min(top) }; range_case(&mut h, &m, bound(i % 3, a.min(b) as u32), bound(i / 3 % 3, a.max(b) as u32 + 1), i % 5)?; } Ok(()) }); });
    }
    pub fn tall_c15(cx: &mut Ctx) {
        let check = |h: &Map, m: &Mod| -> R { full(h, m) };
        tall(cx, TALL, |cx, n, s| for cut in cuts(n) { cx.distinct += 1; cx.case(|| format!("split_off({}) on tall shape {} of {} entries, used and rejoined", cut, s, n), || {
            let (mut h, mut m) = build(n, s, 43); let mut o = h.split_off(&cut).map_err(|_| "Err")?; let mut mo = m.split_off(&cut); full(&h, &m)?; full(&o, &mo)?;
            let mut rng = Rng::new(cut as u64); churn(&mut h, &mut m, &mut rng, 150, 150, &check)?; churn(&mut o, &mut mo, &mut rng, 150, 150, &check)?; if !m.is_empty() { lookups(&h, &m, (0..2 * n as u32).step_by(11))?; }
            if cut % 2 == 0 { h.append(&mut o); m.append(&mut mo); } else { o.append(&mut h); mo.append(&mut m); h = o; m = mo; } full(&h, &m) }); });
        for &n in &[700usize, 1300, 4700] { for &n2 in &[1usize, 7, 66, 800, 1300, 4400] { for mode in 0..5 { if cx.out_of_time() { return; } cx.distinct += 1; cx.case(|| format!("append {} entries to {} (mode {})", n2, n, mode), || {
            let (mut h, mut m) = build(n, (n2 + mode) % SHAPES, 19); let mut o = Map::new(); let mut mo = Mod::new();
            for i in 0..n2 as u32 { let k = match mode { 0 => 2 * i, 1 => 2 * i + 1, 2 => 100_000 + i, 3 => (i * 7919) % (3 * n as u32), _ => if i % 2 == 0 { 2 * i } else { 2 * n as u32 + i } }; o.try_insert(E::new(k), E::new(5000 + i)).map_err(|_| "Err")?; mo.insert(k, 5000 + i); }
            h.append(&mut o); m.append(&mut mo); ensure!(o.is_empty() && o.iter().next().is_none(), "the other map is not empty"); full(&h, &m)?; churn(&mut h, &mut m, &mut Rng::new(n2 as u64), 300, 300, &check) }); } } }
        // the last leaves of the appended tree, at every fill
        for n in (600..1400usize).step_by(1) { if cx.out_of_time() { return; } cx.distinct += 1; cx.case(|| format!("append one entry to {}, then use the map", n), || { let (mut h, mut m) = build(n, 0, 1); let mut o = Map::new(); o.try_insert(E::new(70_000), E::new(1)).map_err(|_| "Err")?; h.append(&mut o); m.insert(70_000, 1); full(&h, &m)?; churn(&mut h, &mut m, &mut Rng::new(n as u64), 60, 60, &check) }); }
    }
    pub fn tall_c16(cx: &mut Ctx) {
        tall(cx, &[700, 4700], |cx, n, s| for op in 0..2 { for af in 0..6i64 { for pos in 0..4u32 { cx.distinct += 1; cx.case(|| format!("{} at position {} of tall shape {} of {} entries, allocation {} fails", ["try_insert", "split_off"][op], pos, s, n, af), || {
            let (mut h, mut m) = build(n, s, 43); let k = (2 * n as u32 / 3 * pos) | 1; let live = reg_live(); let mut failed = false;
            if op == 0 { for i in 0..14 { let k = k + 2 * i; let (a, b) = (E::new(k), E::new(i)); if with_alloc_fail(af, || h.try_insert(a, b)).is_ok() { m.insert(k, i); } else { failed = true; } } } else { match with_alloc_fail(af, || h.split_off(&k)) { Ok(mut o) => { let mut mo = m.split_off(&k); full(&o, &mo)?; h.append(&mut o); m.append(&mut mo); } Err(_) => { failed = true; ensure!(reg_live() == live, "elements lost"); } } }
            full(&h, &m).map_err(|e| format!("after {}: {}", if failed { "a failure" } else { "success" }, e))?; inspect(&h)?; for i in 0..30 { h.try_insert(E::new(k + i), E::new(i)).map_err(|_| "Err")?; m.insert(k + i, i); h.remove(&(k / 2 + i)); m.remove(&(k / 2 + i)); } full(&h, &m) }); } } });
    }
    pub fn tall_c06(cx: &mut Ctx) {
        tall(cx, TALL, |cx, n, s| for (af, cf) in [(-1i64, -1i64), (0, -1), (1, -1), (3, -1), (20, -1), (-1, 0), (-1, n as i64), (-1, 2 * n as i64 - 1)] { if af + cf > 0 && n > 2000 && s > 3 { continue; } cx.distinct += 1; cx.case(|| format!("try_clone of tall shape {} of {} entries, allocation {} and clone {} fail", s, n, af, cf), || {
            let (h, m) = build(n, s, 43); set_clone_fail(cf); let c = with_alloc_fail(af, || h.try_clone()); set_clone_fail(-1); full(&h, &m)?;
            match c { Ok(mut c) => { full(&c, &m)?; inspect(&c)?; let mut mc = m.clone(); churn(&mut c, &mut mc, &mut Rng::new(n as u64), 300, 300, &|h, m| full(h, m))?; full(&h, &m)?; } Err(_) => ensure!(af >= 0 || cf >= 0, "failed without a reason") } Ok(()) }); });
    }
    pub fn tall_c19(cx: &mut Ctx) {
        tall(cx, TALL, |cx, n, s| { cx.distinct += 1; cx.case(|| format!("entries of tall shape {} of {} entries", s, n), || {
            let (mut h, mut m) = build(n, s, 43); let top = m.keys().next_back().map_or(3, |k| k + 3) as usize; let mut rng = Rng::new(n as u64 + s as u64);
            for i in 0..600u32 { let k = if i % 2 == 0 { rng.below(top) } else { (i as usize) % top } as u32; match h.try_entry(E::new(k)).map_err(|_| "Err")? {
                Entry::Occupied(e) => { ensure!(m.get(&k) == Some(&e.get().v) && e.key().v == k, "Occupied for {}", k); if rng.below(3) > 0 { let (a, b) = e.remove_entry(); ensure!(a.v == k && Some(b.v) == m.remove(&k), "remove_entry"); } else { e.into_mut().v = i; m.insert(k, i); } }
                Entry::Vacant(e) => { ensure!(!m.contains_key(&k) && e.key().v == k, "Vacant for {}", k); if rng.below(2) == 0 { let r = e.try_insert(E::new(i)).map_err(|_| "Err")?; ensure!(r.v == i, "try_insert"); r.v += 1; m.insert(k, i + 1); } } } }
            full(&h, &m) }); });
    }
}
