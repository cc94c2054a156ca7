//! Vec and TryVec: C01..C06 (sequence results, failures, ownership, reservations, clones).
use crate::rt::*;
use fallible_collections::*;
use fallible_collections::vec::{TryCollect, TryFromIterator, FallibleVec};
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn mk(len: usize, spare: usize) -> Vec<E> {
    let mut v = Vec::with_capacity(len + spare);
    for i in 0..len { v.push(E::new(100 + i as u32)); }
    v
}
fn vals(v: &[E]) -> Vec<u32> { v.iter().map(|e| { e.check(); e.v }).collect() }
fn ids(v: &[E]) -> Vec<usize> { v.iter().map(|e| e.id).collect() }
fn src(n: usize) -> Vec<E> { (0..n).map(|i| E::new(500 + i as u32)).collect() }
fn srcvals(n: usize) -> Vec<u32> { (0..n).map(|i| 500 + i as u32).collect() }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Reserve, Push, PushGive, Insert, Append, ResizeWith, ResizeNoCopy, ExtendNoCopy, Resize, ExtendSlice,
    TvPush, TvReserve, TvAppend, AppendRoomy, TvAppendRoomy, TvExtend, TvResizeWith, TryClone, TvTryClone, TvTryFrom, Collect, Concat, FromElem }
use Op::*;
pub const OPS: &[Op] = &[Reserve, Push, PushGive, Insert, Append, ResizeWith, ResizeNoCopy, ExtendNoCopy, Resize, ExtendSlice,
    TvPush, TvReserve, TvAppend, AppendRoomy, TvAppendRoomy, TvExtend, TvResizeWith, TryClone, TvTryClone, TvTryFrom, Collect, Concat, FromElem];

#[derive(Clone, Copy, Debug)]
pub enum Fault { None, Alloc(i64), CloneErr(i64), ClonePanic(i64), DropPanic(i64) }

/// Runs `op` with argument `n` on a vector of `len` elements with `spare` capacity under `fault`
/// and checks result, contents, identity, ownership and allocator use.
pub fn run(op: Op, len: usize, spare: usize, n: usize, fault: Fault, what: &str) -> R {
    let mut want: Vec<u32> = (0..len as u32).map(|i| 100 + i).collect();
    let on = |s: &str| s.contains(what);
    let arm = |f: Fault| match f { Fault::CloneErr(k) => set_clone_fail(k), Fault::ClonePanic(k) => set_clone_panic(k), Fault::DropPanic(k) => set_drop_panic(k), _ => {} };
    let disarm = || { set_clone_fail(-1); set_clone_panic(-1); set_drop_panic(-1); };
    let af = match fault { Fault::Alloc(k) => k, _ => -1 };
    match op {
        Resize | ExtendSlice => {
            // Copy elements
            let mut v: Vec<u32> = Vec::with_capacity(len + spare);
            v.extend(want.iter().copied());
            let (p, c) = (v.as_ptr(), v.capacity());
            let a = allocs();
            let other = srcvals(n);
            let a2 = allocs() - a;
            let r = with_alloc_fail(af, || if op == Resize { FallibleVec::try_resize(&mut v, n, 7) } else { v.try_extend_from_slice(&other) });
            let used = allocs() - a - a2;
            let mut after = want.clone();
            if op == Resize { after.resize(n, 7) } else { after.extend(other.iter().copied()) }
            if after.len() <= c && on("C05") { ensure!(r.is_ok(), "failed although the result fits the capacity"); ensure!(used == 0 && v.as_ptr() == p, "allocated although the result fits the capacity"); }
            if r.is_ok() { if on("C01 C03") { ensure!(v == after, "contents {:?} instead of {:?}", v, after); } }
            else { if on("C01") { ensure!(af >= 0, "failed without a reason"); } if on("C02") { ensure!(v == want, "Err but the vector changed: {:?}", v); } }
            return Ok(());
        }
        Collect => {
            let items = src(n);
            let before_ids = ids(&items);
            let r: Result<Vec<E>, _> = with_alloc_fail(af, || if len % 2 == 0 { items.try_collect() } else { Vec::try_from_iterator(items) });
            match r { Ok(v) => if on("C01 C03") { ensure!(vals(&v) == srcvals(n), "collected {:?}", v); ensure!(ids(&v) == before_ids, "elements were replaced"); },
                Err(_) => if on("C01") { ensure!(af >= 0, "failed without a reason") } }
            return Ok(());
        }
        Concat => {
            let parts: Vec<TryVec<E>> = (0..n).map(|i| TryVec::from(src((i * len + spare) % 4))).collect();
            let parts: TryVec<TryVec<E>> = TryVec::from(parts);
            let mut exp = vec![]; for i in 0..n { exp.extend(srcvals((i * len + spare) % 4)); }
            arm(fault);
            let r = catch_unwind(AssertUnwindSafe(|| with_alloc_fail(af, || parts.concat())));
            disarm();
            for (i, p) in parts.iter().enumerate() { if on("C01 C02") { ensure!(vals(p) == srcvals((i * len + spare) % 4), "concat changed its input"); } }
            match r { Ok(Ok(v)) => if on("C01 C03") { ensure!(vals(&v) == exp, "concat gave {:?}", v); },
                Ok(Err(_)) => if on("C01 C06") { ensure!(af >= 0 || matches!(fault, Fault::CloneErr(_)), "failed without a reason") },
                Err(_) => ensure!(matches!(fault, Fault::ClonePanic(_)), "panicked") }
            return Ok(());
        }
        FromElem => {
            #[cfg(feature = "tree")]
            {
                let e = E::new(9);
                arm(fault);
                let r = catch_unwind(AssertUnwindSafe(|| with_alloc_fail(af, || try_vec![e; n])));
                disarm();
                match r { Ok(Ok(v)) => if on("C01 C03") { ensure!(vals(&v) == vec![9; n], "try_vec![9; {}] gave {:?}", n, v) },
                    Ok(Err(_)) => if on("C01 C06") { ensure!(af >= 0 || matches!(fault, Fault::CloneErr(_)), "failed without a reason") },
                    Err(_) => ensure!(matches!(fault, Fault::ClonePanic(_) | Fault::DropPanic(_)), "panicked") }
                let r = with_alloc_fail(af, || try_vec![len as u8; n * 3]);
                match r { Ok(v) => ensure!(v == vec![len as u8; n * 3], "try_vec![u8] gave {:?}", v), Err(_) => ensure!(af >= 0, "failed without a reason") }
                let (x, y, z) = (E::new(1), E::new(2), E::new(3));
                match with_alloc_fail(af, || try_vec![x, y, z]) { Ok(v) => ensure!(vals(&v) == vec![1, 2, 3], "try_vec![1, 2, 3] gave {:?}", v), Err(_) => ensure!(af >= 0, "failed without a reason") }
            }
            return Ok(());
        }
        TryClone | TvTryClone | TvTryFrom => {
            let v = mk(len, spare);
            let before = ids(&v);
            let a = clones();
            arm(fault);
            let r = catch_unwind(AssertUnwindSafe(|| with_alloc_fail(af, || match op {
                TryClone => fallible_collections::TryClone::try_clone(&v).map(|c| c.into_iter().collect::<Vec<E>>()),
                TvTryClone => { let t = TryVec::from(no_fail(|| vec![0u8; 0])); let _ = t; let tv = unsafe { std::mem::ManuallyDrop::new(std::ptr::read(&v)) }; let tv = std::mem::ManuallyDrop::new(TryVec::from(std::mem::ManuallyDrop::into_inner(tv))); fallible_collections::TryClone::try_clone(&*tv).map(|c| c.into_iter().collect::<Vec<E>>()) }
                _ => TryVec::try_from(&v[..]).map(|c| c.into_iter().collect::<Vec<E>>()),
            })));
            disarm();
            if on("C06 C02") { ensure!(ids(&v) == before && vals(&v) == want, "try_clone changed the original"); }
            match r {
                Ok(Ok(c)) => if on("C01 C06") { ensure!(vals(&c) == want, "clone {:?} of {:?}", c, want); ensure!(!on("C06") || (clones() - a) as usize == len, "{} clones for {} elements", clones() - a, len);
                    ensure!(c.iter().all(|e| !before.contains(&e.id)), "clone shares an element"); ensure!(len == 0 || c.as_ptr() != v.as_ptr(), "clone shares the buffer"); },
                Ok(Err(_)) => if on("C01 C06") { ensure!(af >= 0 || matches!(fault, Fault::CloneErr(_)), "failed without a reason") },
                Err(_) => ensure!(matches!(fault, Fault::ClonePanic(_)), "panicked"),
            }
            return Ok(());
        }
        _ => {}
    }
    let mut v = mk(len, spare);
    let before_ids = ids(&v);
    let (p, c) = (v.as_ptr(), v.capacity());
    let start = want.clone();
    let roomy = matches!(op, AppendRoomy | TvAppendRoomy);      // the vector that is appended could hold everything
    let op = match op { AppendRoomy => Append, TvAppendRoomy => TvAppend, o => o };
    let mut other = src(if matches!(op, Append | TvAppend | ExtendNoCopy | TvExtend) { n } else { 0 });
    if roomy { other.reserve(len + spare + 9); }
    let other_ids = ids(&other);
    let elem = E::new(700);
    let elem_id = elem.id;
    let mut elem = Some(elem);
    let mut counter = 0u32;
    let a = allocs();
    arm(fault);
    let mut given: Option<E> = None;
    let r = catch_unwind(AssertUnwindSafe(|| with_alloc_fail(af, || {
        let mut tv = if matches!(op, TvPush | TvReserve | TvAppend | TvExtend | TvResizeWith) { Some(TryVec::from(std::mem::take(&mut v))) } else { None };
        let r = match op {
            Reserve => FallibleVec::try_reserve(&mut v, n),
            Push => v.try_push(elem.take().unwrap()),
            PushGive => v.try_push_give_back(elem.take().unwrap()).map_err(|(e, x)| { given = Some(e); x }),
            Insert => FallibleVec::try_insert(&mut v, n, elem.take().unwrap()).map_err(|(e, x)| { given = Some(e); x }),
            Append => v.try_append(&mut other),
            ResizeWith => v.try_resize_with(n, || { counter += 1; E::new(599 + counter) }),
            ResizeNoCopy => v.try_resize_no_copy(n, elem.take().unwrap()),
            ExtendNoCopy => v.try_extend_from_slice_no_copy(&other),
            TvPush => tv.as_mut().unwrap().push(elem.take().unwrap()),
            TvReserve => tv.as_mut().unwrap().reserve(n),
            TvAppend => { let mut o = TryVec::from(std::mem::take(&mut other)); let r = tv.as_mut().unwrap().append(&mut o); other = unwrap_tv(o); r }
            TvExtend => tv.as_mut().unwrap().extend_from_slice(&other),
            TvResizeWith => tv.as_mut().unwrap().resize_with(n, || { counter += 1; E::new(599 + counter) }),
            _ => unreachable!(),
        };
        if let Some(t) = tv { v = unwrap_tv(t); }
        r
    })));
    disarm();
    let used = allocs() - a;
    match op {
        Push | PushGive | TvPush => want.push(700),
        Insert => want.insert(n, 700),
        Append | TvAppend | ExtendNoCopy | TvExtend => want.extend(srcvals(n)),
        ResizeWith | TvResizeWith => { let l = want.len(); want.truncate(n); for i in l..n { want.push((600 + (i - l)) as u32); } }
        ResizeNoCopy => want.resize(n, 700),
        _ => {}
    }
    let fits = want.len() <= c && !(matches!(op, Reserve | TvReserve) && len + n > c);
    match r {
        Ok(Ok(())) => {
            if on("C01 C03") {
                ensure!(vals(&v) == want, "contents {:?} instead of {:?}", v, want);
                ensure!(given.is_none(), "an element was handed back on success");
            }
            if on("C05") && matches!(op, Reserve | TvReserve) { ensure!(vals(&v) == want, "contents {:?} instead of {:?}", v, want); ensure!(v.capacity() - v.len() >= n, "reserved {} but only room for {}", n, v.capacity() - v.len()); }
            if on("C01") {
                match op {
                    Push | PushGive | TvPush => ensure!(v[len].id == elem_id, "another element was stored"),
                    Insert => ensure!(v[n].id == elem_id, "another element was stored"),
                    Append | TvAppend => { ensure!(other.is_empty(), "other is not empty after append"); ensure!(ids(&v)[len..] == other_ids[..], "append replaced elements"); }
                    ExtendNoCopy | TvExtend => ensure!(ids(&other) == other_ids, "the source slice changed"),
                    _ => {}
                }
                let kept = if op == Insert { let mut b = before_ids.clone(); b.insert(n, elem_id); b } else { before_ids.iter().copied().take(v.len()).collect() };
                ensure!(ids(&v)[..kept.len()] == kept[..], "existing elements were moved or replaced");
            }
            if fits && on("C05") { ensure!(used == 0, "made {} allocation request(s) although the result fits the capacity", used); ensure!(len == 0 && c == 0 || v.as_ptr() == p && v.capacity() == c, "moved the buffer although the result fits"); }
        }
        Ok(Err(_)) => {
            if on("C05") { ensure!(!(fits && af >= 0), "failed for lack of memory although the result fits the capacity"); }
            if on("C01") { ensure!(af >= 0 || matches!(fault, Fault::CloneErr(_)), "failed without a reason"); }
            if on("C02") {
                ensure!(v.len() >= len && ids(&v)[..len] == before_ids[..] && vals(&v)[..len] == start[..] && (op == Insert || vals(&v)[..] == want[..v.len()]), "Err and the vector is {:?} (before: {} elements)", v, len);
                if af >= 0 || op == Insert { ensure!(v.len() == len, "Err for lack of memory but the vector grew"); }
                ensure!(ids(&other) == other_ids, "Err and the other operand changed");
                if matches!(op, PushGive | Insert) { ensure!(given.as_ref().map(|e| e.id) == Some(elem_id), "the element was not handed back"); }
            }
        }
        Err(_) => {
            ensure!(matches!(fault, Fault::ClonePanic(_) | Fault::DropPanic(_)), "panicked");
            if matches!(fault, Fault::DropPanic(_)) { allow_leak(); }
            for e in v.iter() { e.check(); }
        }
    }
    for e in v.iter() { e.check(); }
    Ok(())
}
fn unwrap_tv(t: TryVec<E>) -> Vec<E> {
    // TryVec<E> is a thin wrapper; its IntoIter gives the buffer back without copying.
    t.into_iter().collect()
}

fn arg_ok(op: Op, len: usize, n: usize) -> bool {
    match op { Push | PushGive | TvPush => n == 0, Insert => n <= len, TryClone | TvTryClone | TvTryFrom => n == 0, Collect | FromElem => true, _ => true }
}
fn grid(cx: &mut Ctx, what: &'static str, faults: &dyn Fn(Op, usize, usize) -> Vec<Fault>, ops: &[Op]) {
    for len in 0..=6usize { for spare in [0usize, 1, 2, 5] { for n in 0..=7usize { for &op in ops {
        if !arg_ok(op, len, n) { continue; }
        for f in faults(op, len, n) {
            cx.distinct += 1;
            cx.case(|| format!("{:?} with argument {} on a vector of {} elements with spare capacity {} under {:?}", op, n, len, spare, f), || run(op, len, spare, n, f, what));
        }
    } } } }
    // larger sizes, from the seed
    let mut rng = Rng::new(cx.seed);
    for _ in 0..cx.n(400) {
        if cx.out_of_time() { break; }
        let (len, spare) = (rng.below(70), rng.below(40));
        let op = ops[rng.below(ops.len())];
        let n = if op == Insert { rng.below(len + 1) } else if arg_ok(op, len, 1) { rng.below(80) } else { 0 };
        let fs = faults(op, len, n);
        if fs.is_empty() { continue; }
        let f = fs[rng.below(fs.len())];
        cx.distinct += 1;
        cx.case(|| format!("{:?} with argument {} on a vector of {} elements with spare capacity {} under {:?}", op, n, len, spare, f), || run(op, len, spare, n, f, what));
    }
}
pub fn c01(cx: &mut Ctx) {
    grid(cx, "C01", &|_, _, _| vec![Fault::None], OPS);
    // the rest of TryVec's interface, against a Vec
    for seed in 0..cx.n(300) {
        if cx.out_of_time() { return; }
        let s = cx.seed * 1000 + seed;
        cx.distinct += 1;
        cx.case(|| format!("random TryVec operations, seed {}", s), || {
            let mut rng = Rng::new(s);
            let mut tv: TryVec<E> = if rng.below(2) == 0 { TryVec::new() } else { TryVec::with_capacity(rng.below(9)).map_err(|e| e.to_string())? };
            let mut m: Vec<u32> = vec![];
            ensure!(tv.is_empty() && tv.len() == 0 && TryVec::<E>::default().is_empty(), "a new TryVec is not empty");
            for _ in 0..40 {
                let x = rng.below(1000) as u32;
                match rng.below(9) {
                    0 | 1 | 2 => { tv.push(E::new(x)).unwrap(); m.push(x); }
                    3 => { let (a, b) = (tv.pop().map(|e| e.v), m.pop()); ensure!(a == b, "pop gave {:?} instead of {:?}", a, b); }
                    4 => { let n = rng.below(20); tv.resize_with(n, || E::new(x)).unwrap(); m.resize(n, x); }
                    5 => { let s = src(rng.below(5)); tv.extend_from_slice(&s).unwrap(); m.extend(s.iter().map(|e| e.v)); }
                    6 => { let mut o = TryVec::from(src(rng.below(5))); m.extend(o.iter().map(|e| e.v)); tv.append(&mut o).unwrap(); ensure!(o.is_empty(), "append left elements"); }
                    7 => { if rng.below(6) == 0 { tv.clear(); m.clear(); } else { for e in tv.iter_mut() { e.v += 1; } for e in m.iter_mut() { *e += 1; } } }
                    _ => { if let Some(e) = tv.as_mut_slice().first_mut() { e.v = x; } if let Some(e) = m.first_mut() { *e = x; } tv.reserve(rng.below(10)).unwrap(); }
                }
                ensure!(tv.len() == m.len() && tv.is_empty() == m.is_empty() && vals(tv.as_slice()) == m && vals(&tv) == m, "{:?} instead of {:?}", tv, m);
                ensure!(tv.iter().map(|e| e.v).collect::<Vec<_>>() == m, "iter differs");
                ensure!((&tv).into_iter().map(|e| e.v).collect::<Vec<_>>() == m, "into_iter by reference differs");
                ensure!(tv.iter().size_hint() == (m.len(), Some(m.len())), "size_hint differs");
                ensure!(format!("{:?}", tv) == format!("{:?}", m), "Debug differs");
                if let Some(i) = m.len().checked_sub(1) { ensure!(tv[i].v == m[i], "index differs"); }
            }
            ensure!(tv.into_iter().map(|e| e.v).collect::<Vec<_>>() == m, "into_iter differs");
            Ok(())
        });
    }
    cx.case(|| "conversions from &str".into(), || {
        for s in ["", "a", "hello wörld"] { let t: TryVec<u8> = TryVec::try_from(s).unwrap(); ensure!(t.as_ref() == s.as_bytes() as &[u8] && t == s, "TryVec from {:?}", s); ensure!(t != "zzzz", "unequal strings compare equal"); }
        Ok(())
    });
    cx.case(|| "zero-sized elements".into(), || {
        let mut v: Vec<()> = Vec::new();
        for i in 0..5 { v.try_push(()).unwrap(); ensure!(v.len() == i + 1, "len {}", v.len()); }
        v.try_resize(3, ()).unwrap(); ensure!(v.len() == 3, "len {}", v.len());
        v.try_extend_from_slice(&[(), ()]).unwrap(); ensure!(v.len() == 5, "len {}", v.len());
        Ok(())
    });
}
fn aborts(op: Op, _: usize, n: usize) -> Vec<Fault> { let mut v = vec![Fault::Alloc(0)]; if matches!(op, Collect | Concat | FromElem) { for k in 1..=(n as i64).min(4) { v.push(Fault::Alloc(k)); } } v }
pub fn c02(cx: &mut Ctx) {
    grid(cx, "C02", &|op, l, n| { let mut f = aborts(op, l, n); for k in 0..=(n.max(l) as i64).min(7) { f.push(Fault::CloneErr(k)); } f }, OPS);
    overflow(cx);
}
pub fn c03(cx: &mut Ctx) { grid(cx, "C03", &aborts, OPS); overflow(cx); }
/// A zero-sized element that counts as cloned, so that lengths near usize::MAX cost nothing.
struct Z;
impl fallible_collections::TryClone for Z { fn try_clone(&self) -> Result<Self, TryReserveError> { Ok(Z) } }
fn zs(n: usize) -> Vec<Z> { let mut v: Vec<Z> = Vec::new(); unsafe { v.set_len(n) }; v }
fn overflow(cx: &mut Ctx) {
    // every refused amount leaves all operands as they were; a zero-sized element never needs memory
    for (a, b) in [(usize::MAX, 1), (usize::MAX, usize::MAX), (usize::MAX - 2, 3), (3, usize::MAX - 1)] { for op in 0..6 {
        cx.distinct += 1;
        cx.case(|| format!("zero-sized elements: {} of lengths {} and {}", ["concat", "append", "extend_from_slice", "resize_no_copy by both", "try_reserve", "push to a full vector"][op], a, b), || {
            let mut x = zs(a); let mut y = zs(b);
            match op {
                0 => { let t: TryVec<TryVec<Z>> = TryVec::from(vec![TryVec::from(zs(a)), TryVec::from(zs(b))]); ensure!(t.concat().is_err(), "an overflowing concat succeeded"); }
                1 => ensure!(x.try_append(&mut y).is_err(), "an overflowing append succeeded"),
                2 => ensure!(x.try_extend_from_slice_no_copy(&y).is_err(), "an overflowing extension succeeded"),
                3 => { let mut w = zs(2); let _ = w.try_resize_no_copy(0, Z); ensure!(w.len() == 0, "not shortened") }
                4 => ensure!(FallibleVec::try_reserve(&mut x, b).is_err(), "an overflowing reservation succeeded"),
                _ => { let mut f = zs(usize::MAX); ensure!(f.try_push(Z).is_err() && f.try_push_give_back(Z).is_err() && f.try_insert(0, Z).is_err(), "a push to a vector of usize::MAX elements succeeded"); ensure!(f.len() == usize::MAX, "changed on Err"); unsafe { f.set_len(0) } }
            }
            ensure!(x.len() == a && y.len() == b, "Err but an operand changed");
            Ok(())
        });
    } }
    for len in 0..4usize { for spare in [0usize, 3] { for n in [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, isize::MAX as usize, usize::MAX / 16, usize::MAX / 24, 1 << 40] { for op in 0..9 {
        cx.distinct += 1;
        cx.case(|| format!("operation {} with amount {} on a vector of {} elements with spare capacity {}", ["try_reserve", "try_with_capacity", "try_resize_with", "try_resize_no_copy", "try_resize", "TryVec::with_capacity", "TryVec::reserve", "TryVec::resize_with", "try_extend_from_slice of a huge zero-sized-element slice"][op], n, len, spare), || {
            let mut v = mk(len, spare);
            let i = ids(&v);
            let r = match op {
                0 => FallibleVec::try_reserve(&mut v, n).is_err(),
                1 => <Vec<E> as FallibleVec<E>>::try_with_capacity(n).is_err(),
                2 => v.try_resize_with(n, || E::new(1)).is_err(),
                3 => v.try_resize_no_copy(n, E::new(1)).is_err(),
                4 => { let mut w: Vec<u64> = vec![3; len]; let r = FallibleVec::try_resize(&mut w, n, 1).is_err(); ensure!(w == vec![3; len], "changed on Err"); r }
                5 => TryVec::<E>::with_capacity(n).is_err(),
                6 => { let mut t = TryVec::from(std::mem::take(&mut v)); let r = t.reserve(n).is_err(); v = unwrap_tv(t); r }
                7 => { let mut t = TryVec::from(std::mem::take(&mut v)); let r = t.resize_with(n, || E::new(1)).is_err(); v = unwrap_tv(t); r }
                _ => { // lengths that overflow when added
                    let mut z: Vec<()> = Vec::new(); unsafe { z.set_len(usize::MAX) };
                    let s = vec![(); len + 1];
                    let r = z.try_extend_from_slice(&s).is_err(); ensure!(z.len() == usize::MAX, "changed on Err"); r }
            };
            ensure!(r, "an impossible amount was accepted");
            ensure!(ids(&v) == i, "Err but the vector changed");
            Ok(())
        });
    } } } }
}
pub fn c04(cx: &mut Ctx) {
    grid(cx, "C04", &|op, l, n| { let mut f = vec![Fault::None]; f.extend(aborts(op, l, n));
        for k in 0..=(n.max(l) as i64).min(7) { f.push(Fault::CloneErr(k)); f.push(Fault::ClonePanic(k)); if matches!(op, ResizeNoCopy | ResizeWith | TvResizeWith) { f.push(Fault::DropPanic(k)); } } f }, OPS);
    histories(cx);
}
// an index past the end is refused the way Vec::insert refuses it, and nothing is changed
pub fn beyond(cx: &mut Ctx) {
    for n in 0..8usize { for spare in 0..4usize { for d in [1usize, 2, 9, usize::MAX / 2] { cx.distinct += 1; cx.case(|| format!("insert at {} in a vector of {} elements with spare capacity {}", n + d, n, spare), || {
        let mut v = mk(n, spare); let want = vals(&v);
        let r = catch_unwind(AssertUnwindSafe(|| { let _ = FallibleVec::try_insert(&mut v, n + d, E::new(77)); }));
        ensure!(r.is_err(), "an index past the end is accepted"); ensure!(vals(&v) == want, "the elements changed"); for e in v.iter() { e.check(); }
        Ok(()) }); } } }
}
fn histories(cx: &mut Ctx) {
    for i in 0..cx.n(400) {
        if cx.out_of_time() { return; }
        let s = cx.seed * 7919 + i;
        cx.distinct += 1;
        cx.case(|| format!("random history with faults, seed {}", s), || {
            let mut rng = Rng::new(s);
            let mut v = mk(rng.below(8), rng.below(4));
            for _ in 0..25 {
                let n = rng.below(12);
                match rng.below(4) { 0 => set_clone_fail(rng.below(6) as i64), 1 => set_clone_panic(rng.below(6) as i64), _ => {} }
                let af = if rng.below(3) == 0 { rng.below(2) as i64 } else { -1 };
                let w = rng.below(7);
                let mut o = no_fail(|| src(n));
                let before: Vec<u32> = vals(&v);
                let r = catch_unwind(AssertUnwindSafe(|| with_alloc_fail(af, || { match w {
                    0 => { let _ = v.try_resize_no_copy(n, E::new(1)); }
                    1 => { let _ = v.try_extend_from_slice_no_copy(&o); }
                    2 => { let _ = v.try_append(&mut o); }
                    3 => { let _ = v.try_push_give_back(E::new(2)); }
                    4 => { let i = n.min(v.len()); let _ = FallibleVec::try_insert(&mut v, i, E::new(3)); }
                    5 => { let _ = fallible_collections::TryClone::try_clone(&v); }
                    _ => { let _ = v.try_resize_with(n, || E::new(4)); }
                } })));
                set_clone_fail(-1); set_clone_panic(-1);
                let _ = r;
                for e in v.iter() { e.check(); }
                if w != 0 && w != 4 && w != 6 { ensure!(vals(&v)[..before.len()] == before[..], "existing elements changed"); }
            }
            Ok(())
        });
    }
}
pub fn c05(cx: &mut Ctx) {
    grid(cx, "C05", &|_, _, _| vec![Fault::None, Fault::Alloc(0)], OPS);
    for len in 0..8usize { for n in 0..20usize { for kind in 0..3 {
        cx.distinct += 1;
        cx.case(|| format!("reserve {} on {} elements, then fill the room ({})", n, len, kind), || {
            let mut v = mk(len, 0);
            if kind == 2 { v = <Vec<E> as FallibleVec<E>>::try_with_capacity(len + n).map_err(|e| e.to_string())?; for i in 0..len { v.push(E::new(100 + i as u32)); } }
            else { FallibleVec::try_reserve(&mut v, n).unwrap(); }
            let (p, c) = (v.as_ptr(), v.capacity());
            ensure!(c >= len + n, "capacity {} after reserving {} on {}", c, n, len);
            let add: Vec<E> = src(n);
            let b = allocs();
            with_alloc_fail(0, || -> R {
                FallibleVec::try_reserve(&mut v, n).map_err(|_| "reserving again failed")?;
                ensure!(v.capacity() == c, "reserving again changed the capacity");
                if kind == 0 { for i in 0..n { v.try_push(E::new(i as u32)).map_err(|_| "push into reserved room failed")?; } }
                else { v.try_extend_from_slice_no_copy(&add).map_err(|_| "extending into reserved room failed")?; }
                Ok(())
            })?;
            ensure!(allocs() == b && v.as_ptr() == p && v.len() == len + n, "reserved room was not used");
            Ok(())
        });
    } } }
    for kind in 0..10 { for n in [5000u64, 100_000] {
        cx.distinct += 1;
        cx.case(|| format!("logarithmically many allocations ({}) for {} additions", kind, n), || {
            let mut v: Vec<u64> = Vec::new();
            let mut t: TryVec<u64> = TryVec::new();
            let mut w: TryVec<u8> = TryVec::new();
            let b = allocs();
            for i in 0..n { match kind {
                0 => v.try_push(i).unwrap(), 1 => t.push(i).unwrap(), 2 => FallibleVec::try_insert(&mut v, (i - i / 16) as usize, i).map_err(|_| "Err")?,
                3 => v.try_push_give_back(i).map_err(|_| "Err")?, 4 => v.try_extend_from_slice(&[i]).unwrap(), 5 => v.try_extend_from_slice_no_copy(&[i]).unwrap(),
                6 => v.try_resize(i as usize + 1, i).unwrap(), 7 => v.try_resize_no_copy(i as usize + 1, i).unwrap(), 8 => t.extend_from_slice(&[i]).unwrap(),
                #[cfg(feature = "io")]
                9 => { std::io::Write::write(&mut w, &[i as u8]).unwrap(); }
                _ => w.push(i as u8).unwrap() } }
            ensure!(allocs() - b <= 40, "{} allocation requests for {} additions", allocs() - b, n);
            let got: Result<Vec<u64>, _> = (0..n).filter(|x| x % 3 != 1).try_collect();
            ensure!(got.is_ok() && allocs() - b <= 80, "try_collect: {} allocation requests for {} additions", allocs() - b, n);
            Ok(())
        });
    } }
}
pub fn c06(cx: &mut Ctx) {
    grid(cx, "C06", &|_, l, _| { let mut f = vec![Fault::None, Fault::Alloc(0)]; for k in 0..=l as i64 { f.push(Fault::CloneErr(k)); f.push(Fault::ClonePanic(k)); } f }, &[TryClone, TvTryClone, TvTryFrom, Concat]);
    macro_rules! prim { ($($t:ty),*) => { $( cx.case(|| format!("try_clone of {}", stringify!($t)), || {
        for x in [<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MAX / 3, <$t>::MIN / 2 + 5] { ensure!(fallible_collections::TryClone::try_clone(&x).unwrap() == x, "{}", x);
            ensure!(fallible_collections::TryClone::try_clone(&Some(x)).unwrap() == Some(x), "Some({})", x);
            ensure!(fallible_collections::TryClone::try_clone(&vec![Some(x); 3]).unwrap() == vec![Some(x); 3], "vec of {}", x); }
        Ok(()) }); )* } }
    prim!(u8, u16, u32, u64, i8, i16, i32, i64, usize, isize);
    cx.case(|| "try_clone of bool".into(), || { for b in [true, false] { ensure!(fallible_collections::TryClone::try_clone(&b).unwrap() == b, "{}", b); } Ok(()) });
    for f in [-1i64, 0, 1, 2, 3, 4, 5] { for cf in [-1i64, 0, 1, 2, 3, 4] {
        cx.distinct += 1;
        cx.case(|| format!("nested try_clone, allocation {} and clone {} fail", f, cf), || {
            let v: Vec<Option<Vec<Box<E>>>> = vec![Some(vec![Box::new(E::new(1)), Box::new(E::new(2))]), None, Some(vec![]), Some(vec![Box::new(E::new(3))])];
            let show = |v: &Vec<Option<Vec<Box<E>>>>| format!("{:?}", v);
            let s = show(&v);
            set_clone_fail(cf);
            let r = with_alloc_fail(f, || fallible_collections::TryClone::try_clone(&v));
            set_clone_fail(-1);
            ensure!(show(&v) == s, "original changed");
            match r { Ok(mut c) => { ensure!(show(&c) == s, "{} instead of {}", show(&c), s); c[0].as_mut().unwrap()[0].v = 77; c[0].as_mut().unwrap().pop(); ensure!(show(&v) == s, "the clone shares storage with the original"); }
                Err(_) => ensure!(f >= 0 || cf >= 0, "failed without a reason") }
            Ok(())
        });
    } }
}
