//! TryHashMap (C08, parts of C03, C06, C20).
use crate::rt::*;
use fallible_collections::{TryClone, TryHashMap};
use std::collections::BTreeMap as M;

fn agrees(h: &TryHashMap<E, E>, m: &M<u32, u32>) -> R {
    ensure!(h.len() == m.len(), "len {} instead of {}", h.len(), m.len());
    let mut seen: M<u32, u32> = M::new();
    for (k, v) in h.iter() { k.check(); v.check(); ensure!(seen.insert(k.v, v.v).is_none(), "key {} is iterated twice", k.v); }
    ensure!(&seen == m, "contents {:?} instead of {:?}", seen, m);
    for k in 0..12u32 { ensure!(h.get(&k).map(|v| v.v) == m.get(&k).copied(), "get({}) gave {:?}", k, h.get(&k)); }
    Ok(())
}
fn history(s: u64, steps: usize, keys: usize, faults: bool) -> R {
    let mut rng = Rng::new(s);
    let cap = rng.below(9);
    let mut h: TryHashMap<E, E> = if rng.below(3) == 0 { TryHashMap::default() } else { TryHashMap::with_capacity(cap).map_err(|_| "with_capacity failed")? };
    let mut m: M<u32, u32> = M::new();
    ensure!(h.len() == 0, "a new map is not empty");
    for _ in 0..steps {
        let (k, v) = (rng.below(keys) as u32, rng.below(1000) as u32);
        match rng.below(8) {
            0..=4 => { let af = if faults && rng.below(2) == 0 { 0 } else { -1 };
                let (a, b) = (E::new(k), E::new(v));
                match with_alloc_fail(af, || h.insert(a, b)) { Ok(old) => { let w = m.insert(k, v); ensure!(old.as_ref().map(|e| e.v) == w, "insert({}) returned {:?} instead of {:?}", k, old, w); }
                    Err(_) => ensure!(af == 0, "failed without a reason") } }
            5 | 6 => { let r = h.remove(&k).map(|e| e.v); let w = m.remove(&k); ensure!(r == w, "remove({}) gave {:?} instead of {:?}", k, r, w); }
            _ => { let af = if faults { rng.below(3) as i64 - 1 } else { -1 }; let cf = if faults && rng.below(2) == 0 { rng.below(2 * m.len() + 1) as i64 } else { -1 };
                set_clone_fail(cf); let c = with_alloc_fail(af, || h.try_clone()); set_clone_fail(-1);
                match c { Ok(c) => { agrees(&c, &m)?; for (k, v) in c.iter() { ensure!(h.iter().all(|(x, y)| x.id != k.id && y.id != v.id), "the clone shares elements"); } } Err(_) => ensure!(af >= 0 || cf >= 0, "failed without a reason") } }
        }
        agrees(&h, &m)?;
    }
    if rng.below(2) == 0 { let mut w = M::new(); for (k, v) in h { ensure!(w.insert(k.v, v.v).is_none(), "into_iter yields a key twice"); } ensure!(w == m, "into_iter differs"); }
    Ok(())
}
pub fn absurd(cx: &mut Ctx) {
    cx.case(|| "absurd capacities".into(), || { for n in [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 2, usize::MAX / 2 + 1, usize::MAX / 2, usize::MAX / 4, usize::MAX / 8 * 7, usize::MAX / 16 * 7 + 1, 1 << 60] {
        ensure!(TryHashMap::<u32, u32>::with_capacity(n).is_err(), "accepted {}", n); ensure!(TryHashMap::<u8, ()>::with_capacity(n).is_err(), "accepted {} of u8", n); ensure!(TryHashMap::<u64, [u64; 9]>::with_capacity(n).is_err(), "accepted {} large entries", n); } Ok(()) });
}
pub fn c08(cx: &mut Ctx) {
    for n in 0..40usize {
        cx.distinct += 1;
        cx.case(|| format!("with_capacity({}) then {} inserts without memory", n, n), || {
            let mut h: TryHashMap<u32, u32> = TryHashMap::with_capacity(n).map_err(|_| "failed")?;
            ensure!(h.len() == 0, "not empty");
            for i in 0..n as u32 { with_alloc_fail(0, || h.insert(i * 7, i)).map_err(|_| "insert within the reserved capacity failed")?; }
            ensure!(h.len() == n, "len"); for i in 0..n as u32 { ensure!(h.get(&(i * 7)) == Some(&i), "get"); }
            Ok(())
        });
    }
    // failure at every number of entries: the map stays as it was
    for n in 0..60usize {
        cx.distinct += 1;
        cx.case(|| format!("insert without memory into {} entries", n), || {
            let mut h: TryHashMap<u32, u32> = TryHashMap::default();
            for i in 0..n as u32 { ensure!(h.insert(i, i + 1).map_err(|_| "failed")?.is_none(), "new key reported as present"); }
            let r = with_alloc_fail(0, || h.insert(1000, 1)); let ok = r.is_ok();
            ensure!(h.len() == n + ok as usize, "len {} after {}", h.len(), ok); ensure!(h.get(&1000).is_some() == ok, "failed insert stored the entry");
            for i in 0..n as u32 { ensure!(h.get(&i) == Some(&(i + 1)), "entry {} lost", i); }
            Ok(())
        });
    }
    absurd(cx);
    // exhaustive short histories over two keys
    for code in 0..6usize.pow(5) {
        cx.distinct += 1;
        cx.case(|| format!("operation word {}", code), || {
            let mut h: TryHashMap<E, E> = TryHashMap::default(); let mut m = M::new(); let mut c = code;
            for i in 0..5u32 { let k = (c % 2) as u32; match c / 2 % 3 { 0 => { let o = h.insert(E::new(k), E::new(i)).map_err(|_| "failed")?; ensure!(o.map(|e| e.v) == m.insert(k, i), "insert returned the wrong value"); }
                    1 => { let o = h.remove(&k); ensure!(o.map(|e| e.v) == m.remove(&k), "remove returned the wrong value"); } _ => { let o = h.try_clone().map_err(|_| "failed")?; h = o; } } c /= 6; agrees(&h, &m)?; }
            Ok(())
        });
    }
    for i in 0..cx.n(3000) { if cx.out_of_time() { return; } let s = cx.seed * 31337 + i; cx.distinct += 1; cx.case(|| format!("random history {}", s), || history(s, 40, 12, i % 2 == 1)); }
}
/// Tables with no room left, where every key is overwritten, removed and put back with memory refused.
pub fn full(cx: &mut Ctx) {
    for n in (1..130u32).chain([223, 224, 225, 447, 448, 449, 896, 1792]) { for churn in [0u32, 1, 3] { cx.distinct += 1; cx.case(|| format!("{} entries, {} rounds of removing and inserting, then as many more as fit; every key overwritten without memory", n, churn), || {
        let mut h: TryHashMap<u32, E> = TryHashMap::default(); let mut m: M<u32, u32> = M::new(); let mut top = n;
        for k in 0..n { h.insert(k, E::new(k)).map_err(|_| "failed")?; m.insert(k, k); }
        for r in 0..churn { for k in (r..n).step_by(3) { if m.remove(&k).is_some() { ensure!(h.remove(&k).is_some(), "remove({})", k); let e = E::new(top); h.insert(top, e).map_err(|_| "failed")?; m.insert(top, top); top += 1; } } }
        for _ in 0..4096 { let e = E::new(top); let r = with_alloc_fail(0, || h.insert(top, e)); if r.is_err() { break; } m.insert(top, top); top += 1; }
        let keys: Vec<u32> = m.keys().copied().collect();
        for (i, &k) in keys.iter().enumerate() {
            let e = E::new(k + 5000); match with_alloc_fail(0, || h.insert(k, e)) { Ok(old) => { let w = m.insert(k, k + 5000); ensure!(old.as_ref().map(|e| e.v) == w, "insert({}) returned {:?} instead of {:?}", k, old, w); } Err(_) => {} }
            ensure!(h.len() == m.len() && h.get(&k).map(|e| e.v) == m.get(&k).copied(), "after overwriting {} without memory it holds {:?} instead of {:?}", k, h.get(&k), m.get(&k));
            if i % 5 == 0 { ensure!(h.remove(&k).map(|e| e.v) == m.remove(&k), "remove({})", k); let e = E::new(k + 9000); if let Ok(old) = with_alloc_fail(0, || h.insert(k, e)) { ensure!(old.is_none(), "a removed key is reported as present"); m.insert(k, k + 9000); } ensure!(h.len() == m.len() && h.get(&k).map(|e| e.v) == m.get(&k).copied(), "after removing and inserting {} it holds {:?}", k, h.get(&k)); }
        }
        let seen: M<u32, u32> = h.iter().map(|(k, v)| (*k, v.v)).collect(); ensure!(seen == m && h.iter().count() == m.len(), "contents");
        Ok(()) }); } }
}
/// Thousands of entries; zero-sized and large keys and values.
pub fn large(cx: &mut Ctx) {
    for n in [200u32, 449, 1000, 1793, 4000, 12_000] { for cap in [0usize, 100, 5000] { cx.distinct += 1; cx.case(|| format!("{} entries in a map with capacity {}", n, cap), || {
        let mut h: TryHashMap<u32, u32> = TryHashMap::with_capacity(cap).map_err(|_| "failed")?;
        for i in 0..n { let k = i.wrapping_mul(2_654_435_761); let r = with_alloc_fail(if i % 9 == 0 || (i as usize) < cap { 0 } else { -1 }, || h.insert(k, i)); ensure!(r.is_ok() || (i % 9 == 0 && i as usize >= cap), "failed without a reason"); if r.is_err() { ensure!(h.len() == i as usize && h.get(&k).is_none(), "Err but the map changed"); ensure!(h.insert(k, i).map_err(|_| "failed")?.is_none(), "new key reported as present"); } else { ensure!(matches!(r, Ok(None)), "new key reported as present"); } }
        ensure!(h.len() == n as usize, "len"); let c = h.try_clone().map_err(|_| "failed")?; ensure!(c.len() == n as usize, "len of the clone");
        for i in 0..n { let k = i.wrapping_mul(2_654_435_761); ensure!(h.get(&k) == Some(&i) && c.get(&k) == Some(&i), "get({})", k); ensure!(h.get(&k.wrapping_add(1)).is_none() || n > 1000, "an absent key"); }
        for i in (0..n).step_by(2) { let k = i.wrapping_mul(2_654_435_761); ensure!(h.remove(&k) == Some(i) && h.get(&k).is_none() && h.remove(&k).is_none(), "remove({})", k); ensure!(h.insert(k, (i + 1)).map_err(|_| "failed")?.is_none() && h.insert(k, i).map_err(|_| "failed")? == Some((i + 1)), "insert({})", k); }
        let mut seen: Vec<u32> = h.iter().map(|(_, v)| *v).collect(); seen.sort(); ensure!(seen.iter().copied().eq(0..n), "iter"); let mut seen: Vec<u32> = c.into_iter().map(|(_, v)| v).collect(); seen.sort(); ensure!(seen.iter().copied().eq(0..n), "into_iter");
        Ok(()) }); } }
    cx.case(|| "unusual element types".into(), || {
        use crate::more::{A64, B150, It, Z};
        fn go<K: It, V: It>(n: u32) -> R { let n = n.min(K::DOM); let mut h: TryHashMap<K, V> = TryHashMap::default();
            for r in 0..2 { for i in 0..n { let o = h.insert(K::mk(i), V::mk((i + r) % V::DOM)).map_err(|_| "failed")?; ensure!(o.is_some() == (r == 1) && o.map_or(true, |x| x.same(i % V::DOM)), "insert({}) gave another value", i); ensure!(h.len() == if r == 0 { i + 1 } else { n } as usize, "len"); } }
            let c = h.try_clone().map_err(|_| "failed")?; for i in 0..n { ensure!(h.get(&K::mk(i)).map_or(false, |v| v.same((i + 1) % V::DOM)) && c.get(&K::mk(i)).map_or(false, |v| v.same((i + 1) % V::DOM)), "get({})", i); } ensure!(h.get(&K::mk(n.min(K::DOM - 1))).is_none() || n == K::DOM, "get of an absent key");
            for i in 0..n { ensure!(h.remove(&K::mk(i)).map_or(false, |v| v.same((i + 1) % V::DOM)) && h.len() == (n - i) as usize - 1, "remove({})", i); } ensure!(h.iter().next().is_none() && c.into_iter().count() == n as usize, "iteration"); Ok(()) }
        go::<Z, E>(1)?; go::<E, Z>(200)?; go::<Z, Z>(1)?; go::<u8, Z>(256)?; go::<A64, E>(200)?; go::<E, A64>(200)?; go::<B150, B150>(200)?; go::<u32, B150>(500)?; go::<E, u8>(500) });
}
pub fn oom(cx: &mut Ctx) { for i in 0..cx.n(400) { let s = cx.seed * 77 + i; cx.distinct += 1; cx.case(|| format!("TryHashMap history with failing allocations {}", s), || history(s, 30, 12, true)); } }
pub fn clone(cx: &mut Ctx) {
    for n in 0..30u32 { for af in [-1i64, 0, 1] { for cf in (-1..=(2 * n as i64).min(9)).chain([2 * n as i64 - 1]) {
        cx.distinct += 1;
        cx.case(|| format!("TryHashMap of {} entries, allocation {} and clone {} fail", n, af, cf), || {
            let mut h: TryHashMap<E, E> = TryHashMap::default(); let mut m = M::new(); for i in 0..n { h.insert(E::new(i), E::new(i * i)).map_err(|_| "failed")?; m.insert(i, i * i); }
            let k0 = clones(); set_clone_fail(cf); let c = with_alloc_fail(af, || h.try_clone()); set_clone_fail(-1); agrees(&h, &m)?;
            match c { Ok(mut c) => { agrees(&c, &m)?; ensure!(clones() - k0 == 2 * n as u64, "{} clones", clones() - k0); c.remove(&0); c.insert(E::new(99), E::new(1)).map_err(|_| "failed")?; agrees(&h, &m)?; } Err(_) => ensure!(af >= 0 || cf >= 0, "failed without a reason") }
            Ok(())
        });
    } } }
}
pub fn debug(cx: &mut Ctx) { cx.case(|| "Debug of TryHashMap".into(), || { let mut h: TryHashMap<u32, u32> = TryHashMap::default(); ensure!(format!("{:?}", h) == "{}", "{:?}", h); h.insert(3, 4).map_err(|_| "failed")?; ensure!(format!("{:?}", h) == "{3: 4}", "{:?}", h); Ok(()) }); }
