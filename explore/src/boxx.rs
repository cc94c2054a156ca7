//! Box, TryBox, Rc, Arc (C07, parts of C03 and C06), try_format (C10).
use crate::rt::*;
use fallible_collections::*;
use std::rc::Rc;
use std::sync::Arc;

#[repr(align(128))]
struct Big { e: E, pad: [u8; 200] }
struct Zst; // counts its drops
thread_local! { static Z: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
impl Drop for Zst { fn drop(&mut self) { Z.with(|z| z.set(z.get() - 1)); } }
fn zst() -> Zst { Z.with(|z| z.set(z.get() + 1)); Zst }
#[repr(align(64))]
struct ZBig;

pub fn boxes(cx: &mut Ctx) {
    for fail in [-1i64, 0, 1] {
        cx.distinct += 8;
        cx.case(|| format!("Box::try_new, allocation {}", fail), || {
            let e = E::new(5); let id = e.id;
            match with_alloc_fail(fail, || <Box<E> as FallibleBox<E>>::try_new(e)) { Ok(b) => { ensure!(fail != 0, "succeeded without memory"); ensure!(b.v == 5 && b.id == id, "another value"); let e = *b; e.check(); }
                Err(_) => { ensure!(fail == 0, "failed without a reason"); ensure!(reg_live() == 0, "value leaked"); } }
            Ok(())
        });
        cx.case(|| format!("TryBox::try_new, into_raw, from_raw, allocation {}", fail), || {
            let e = E::new(5); let id = e.id;
            match with_alloc_fail(fail, || TryBox::try_new(e)) { Ok(b) => { ensure!(fail != 0, "succeeded without memory"); ensure!(b.v == 5 && b.id == id, "another value");
                    let at = &*b as *const E; let n = live_blocks(); let p = TryBox::into_raw(b); ensure!(p as *const E == at && live_blocks() == n && reg_live() == 1, "into_raw moved or released"); let b = unsafe { TryBox::from_raw(p) }; ensure!(b.id == id, "from_raw gave another value"); }
                Err(_) => { ensure!(fail == 0, "failed without a reason"); ensure!(reg_live() == 0, "value leaked"); } }
            Ok(())
        });
        cx.case(|| format!("over-aligned value, allocation {}", fail), || {
            let b = Big { e: E::new(9), pad: [0xC3; 200] };
            match with_alloc_fail(fail, || <Box<Big> as FallibleBox<Big>>::try_new(b)) { Ok(b) => { ensure!(&*b as *const Big as usize % 128 == 0, "misaligned"); ensure!(b.e.v == 9 && b.pad == [0xC3; 200], "another value"); } Err(_) => ensure!(fail == 0, "failed without a reason") }
            let b = Big { e: E::new(9), pad: [0xC3; 200] };
            match with_alloc_fail(fail, || TryBox::try_new(b)) { Ok(b) => { ensure!(&*b as *const Big as usize % 128 == 0, "misaligned"); ensure!(b.e.v == 9 && b.pad == [0xC3; 200], "another value"); } Err(_) => ensure!(fail == 0, "failed without a reason") }
            Ok(())
        });
        macro_rules! aligned { ($($a:literal)*) => { $( cx.case(|| format!("values aligned to {}, allocation {}", $a, fail), || {
            #[repr(align($a))] struct W { e: E, last: u8 }
            let ok = |w: &W| w as *const W as usize % $a == 0 && w.e.v == 3 && w.last == 8;
            for _ in 0..4 {
                match with_alloc_fail(fail, || <Box<W> as FallibleBox<W>>::try_new(W { e: E::new(3), last: 8 })) { Ok(b) => { ensure!(ok(&b), "Box: misaligned or another value"); let b = { let _keep = Box::new(0u8); b }; let w = *b; w.e.check(); } Err(_) => ensure!(fail == 0, "failed without a reason") }
                match with_alloc_fail(fail, || TryBox::try_new(W { e: E::new(3), last: 8 })) { Ok(b) => { ensure!(ok(&b), "TryBox: misaligned or another value"); let p = TryBox::into_raw(b); drop(unsafe { TryBox::from_raw(p) }); } Err(_) => ensure!(fail == 0, "failed without a reason") }
                #[cfg(feature = "tree")] #[allow(deprecated)] {
                    if let Ok(b) = with_alloc_fail(fail, || <Rc<W> as FallibleRc<W>>::try_new(W { e: E::new(3), last: 8 })) { ensure!(ok(&b), "Rc: misaligned or another value"); }
                    if let Ok(b) = with_alloc_fail(fail, || <Arc<W> as FallibleArc<W>>::try_new(W { e: E::new(3), last: 8 })) { ensure!(ok(&b), "Arc: misaligned or another value"); }
                }
                ensure!(reg_live() == 0, "not dropped once");
            }
            Ok(())
        }); )* } }
        aligned!(1 2 16 32 256 1024 4096 8192 65536);
        cx.case(|| format!("zero-sized values, allocation {}", fail), || {
            Z.with(|z| z.set(0));
            { let b = with_alloc_fail(fail, || <Box<Zst> as FallibleBox<Zst>>::try_new(zst())); ensure!(b.is_ok(), "a zero-sized value needs no memory"); ensure!(Z.with(|z| z.get()) == 1, "drops"); }
            ensure!(Z.with(|z| z.get()) == 0, "a zero-sized value was dropped {} times", 1 - Z.with(|z| z.get()));
            { let b = TryBox::try_new(zst()).unwrap(); let p = TryBox::into_raw(b); ensure!(Z.with(|z| z.get()) == 1, "drops"); drop(unsafe { TryBox::from_raw(p) }); }
            ensure!(Z.with(|z| z.get()) == 0, "drops");
            let b = <Box<ZBig> as FallibleBox<ZBig>>::try_new(ZBig).unwrap(); ensure!(&*b as *const ZBig as usize % 64 == 0, "misaligned");
            Ok(())
        });
        for size in 0..6 {
            cx.case(|| format!("arrays of {} bytes, allocation {}", [1, 2, 3, 7, 33, 4097][size], fail), || {
                fn t<const N: usize>(fail: i64) -> R { let mut a = [0u8; N]; for i in 0..N { a[i] = (i * 7 + 1) as u8; }
                    match with_alloc_fail(fail, || <Box<[u8; N]> as FallibleBox<_>>::try_new(a)) { Ok(mut b) => { ensure!(*b == a, "another value"); b[N - 1] = 0; } Err(_) => ensure!(fail == 0, "failed without a reason") }
                    match with_alloc_fail(fail, || TryBox::try_new(a)) { Ok(b) => ensure!(*b == a, "another value"), Err(_) => ensure!(fail == 0, "failed without a reason") } Ok(()) }
                match size { 0 => t::<1>(fail), 1 => t::<2>(fail), 2 => t::<3>(fail), 3 => t::<7>(fail), 4 => t::<33>(fail), _ => t::<4097>(fail) }
            });
        }
        for cf in [-1i64, 0] {
            cx.case(|| format!("try_clone of Box and TryBox, allocation {}, clone {}", fail, cf), || {
                let b = <Box<E> as FallibleBox<E>>::try_new(E::new(5)).unwrap(); let t = TryBox::try_new(E::new(6)).unwrap();
                set_clone_fail(cf);
                let c = with_alloc_fail(fail, || TryClone::try_clone(&b));
                match c { Ok(c) => { ensure!(c.v == 5 && c.id != b.id && &*c as *const E != &*b as *const E, "not an independent copy"); } Err(_) => ensure!(fail == 0 || cf == 0, "failed without a reason") }
                set_clone_fail(cf);
                let c = with_alloc_fail(fail, || TryClone::try_clone(&t));
                match c { Ok(c) => { ensure!(c.v == 6 && c.id != t.id && &*c as *const E != &*t as *const E, "not an independent copy"); } Err(_) => ensure!(fail == 0 || cf == 0, "failed without a reason") }
                set_clone_fail(-1);
                b.check(); t.check(); ensure!(b.v == 5 && t.v == 6, "original changed");
                Ok(())
            });
        }
        #[allow(deprecated)]
        cx.case(|| format!("Rc and Arc, allocation {}", fail), || {
            let stable_fail = fail >= 0 && !cfg!(feature = "tree");
            if stable_fail { return Ok(()); } // documented not to be completely fallible there
            let e = E::new(5); let id = e.id;
            match with_alloc_fail(fail, || <Rc<E> as FallibleRc<E>>::try_new(e)) { Ok(mut r) => { ensure!(fail != 0, "succeeded without memory"); ensure!(r.id == id && Rc::strong_count(&r) == 1 && Rc::weak_count(&r) == 0 && Rc::get_mut(&mut r).is_some(), "not the only owner of the value");
                let q = r.clone(); drop(r); ensure!(q.id == id && reg_live() == 1, "value released early"); } Err(_) => ensure!(fail == 0, "failed without a reason") }
            ensure!(reg_live() == 0, "not dropped once");
            let e = E::new(5); let id = e.id;
            match with_alloc_fail(fail, || <Arc<E> as FallibleArc<E>>::try_new(e)) { Ok(mut r) => { ensure!(fail != 0, "succeeded without memory"); ensure!(r.id == id && Arc::strong_count(&r) == 1 && Arc::weak_count(&r) == 0 && Arc::get_mut(&mut r).is_some(), "not the only owner of the value");
                let q = with_alloc_fail(0, || TryClone::try_clone(&r)).map_err(|_| "try_clone of Arc needs memory")?; ensure!(Arc::ptr_eq(&q, &r) && Arc::strong_count(&r) == 2 && Arc::weak_count(&r) == 0, "Arc::try_clone is not another owner of the same value"); drop(r); ensure!(q.id == id && reg_live() == 1, "value released early"); } Err(_) => ensure!(fail == 0, "failed without a reason") }
            ensure!(reg_live() == 0, "not dropped once");
            let b = Big { e: E::new(9), pad: [0xC3; 200] };
            if let Ok(b) = with_alloc_fail(fail, || <Arc<Big> as FallibleArc<Big>>::try_new(b)) { ensure!(&*b as *const Big as usize % 128 == 0 && b.pad == [0xC3; 200] && b.e.v == 9, "Arc: misaligned or another value"); }
            let b = Big { e: E::new(9), pad: [0xC3; 200] };
            if let Ok(b) = with_alloc_fail(fail, || <Rc<Big> as FallibleRc<Big>>::try_new(b)) { ensure!(&*b as *const Big as usize % 128 == 0 && b.pad == [0xC3; 200] && b.e.v == 9, "Rc: misaligned or another value"); }
            Z.with(|z| z.set(0));
            drop(with_alloc_fail(fail, || <Rc<Zst> as FallibleRc<Zst>>::try_new(zst()))); drop(with_alloc_fail(fail, || <Arc<Zst> as FallibleArc<Zst>>::try_new(zst())));
            ensure!(Z.with(|z| z.get()) == 0, "a zero-sized value was not dropped exactly once");
            Ok(())
        });
        cx.case(|| format!("Arc of an unsized value: try_clone, allocation {}", fail), || {
            let a: Arc<[u32]> = Arc::from(&[1u32, 2, 3][..]);
            let b = with_alloc_fail(fail, || TryClone::try_clone(&a)).map_err(|_| "try_clone of Arc needs memory")?;
            ensure!(Arc::ptr_eq(&a, &b) && Arc::strong_count(&a) == 2, "not the same allocation");
            Ok(())
        });
    }
}

// ------------------------------------------------------------------------------------ C10
struct Pad(usize, char);
impl std::fmt::Display for Pad { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { for _ in 0..self.0 { use std::fmt::Write; f.write_char(self.1)?; } Ok(()) } }
pub fn format(cx: &mut Ctx) {
    for n in [0usize, 1, 2, 3, 7, 8, 9, 31, 64, 100] { for extra in [0usize, 1, 5, 40] { for c in ['a', 'é', '𝕏'] { for af in [-1i64, 0] { for shape in 0..4 {
        cx.distinct += 1;
        cx.case(|| format!("{} x {:?}, capacity +{}, shape {}, allocation {}", n, c, extra, shape, af), || {
            let want = no_fail(|| match shape { 0 => format!("{}", Pad(n, c)), 1 => format!("<{}|{:>5}>", Pad(n, c), n), 2 => format!("{:?}{}", Some(n), Pad(n, c)), _ => format!("literal") });
            let cap = want.len() + extra;
            let b = allocs();
            let r = with_alloc_fail(af, || match shape { 0 => tryformat!(cap, "{}", Pad(n, c)), 1 => fallible_collections::format::try_format(cap, format_args!("<{}|{:>5}>", Pad(n, c), n)), 2 => tryformat!(cap, "{:?}{}", Some(n), Pad(n, c)), _ => tryformat!(cap, "literal") });
            let used = allocs() - b;
            match r { Ok(s) => { ensure!(s == want, "{:?} instead of {:?}", s, want); ensure!(s.capacity() >= cap, "capacity {} instead of {}", s.capacity(), cap); ensure!(used == (cap > 0) as u64, "{} allocation requests", used); }
                Err(_) => ensure!(af >= 0 && cap > 0, "failed without a reason") }
            Ok(())
        });
    } } } } }
    // arguments that print differently each time, in many pieces, long texts
    for n in [0usize, 1, 2, 5, 17, 40, 200, 900, 3000] { for extra in [0usize, 3, 1000] { for shape in 0..5 { for af in [-1i64, 0] {
        cx.distinct += 1;
        cx.case(|| format!("an argument that prints differently each time, {} pieces, capacity +{}, shape {}, allocation {}", n, extra, shape, af), || {
            let pad = no_fail(|| "x".repeat(n)); let (a, b) = (Count::default(), Count::default());
            let want = no_fail(|| match shape { 0 => format!("{}", Pieces(n, &a)), 1 => format!("{a} {a}{} {a:?}", pad, a = a), 2 => format!("{pad}{:#x}{:>w$.2}é{}", n, 1.23456, a, pad = pad, w = n % 70), 3 => format!("{:?}{:#?}", [&a, &a], (n, &pad)), _ => format!("{}", format_args!("{}{}", a, format_args!("{}{}", pad, a))) });
            let n0 = b.0.get(); let cap = want.len() + extra; let k0 = allocs();
            let r = with_alloc_fail(af, || match shape { 0 => tryformat!(cap, "{}", Pieces(n, &b)), 1 => tryformat!(cap, "{a} {a}{} {a:?}", pad, a = b), 2 => tryformat!(cap, "{pad}{:#x}{:>w$.2}é{}", n, 1.23456, b, pad = pad, w = n % 70), 3 => tryformat!(cap, "{:?}{:#?}", [&b, &b], (n, &pad)), _ => tryformat!(cap, "{}", format_args!("{}{}", b, format_args!("{}{}", pad, b))) });
            let used = allocs() - k0;
            match r { Ok(s) => { ensure!(s == want, "{:?} instead of {:?}", s, want); ensure!(s.capacity() >= cap, "capacity {} instead of {}", s.capacity(), cap); ensure!(used == (cap > 0) as u64, "{} allocation requests", used); ensure!(b.0.get() - n0 == a.0.get(), "the arguments were formatted {} times instead of {}", b.0.get() - n0, a.0.get()); }
                Err(_) => ensure!(af >= 0 && cap > 0, "failed without a reason") }
            Ok(())
        });
    } } } }
    for cap in [usize::MAX, isize::MAX as usize + 1, 1 << 60] { cx.case(|| format!("capacity {}", cap), || { ensure!(tryformat!(cap, "x").is_err(), "accepted"); Ok(()) }); }
}
/// Prints how often it has been printed.
#[derive(Default)]
struct Count(std::cell::Cell<u32>);
impl std::fmt::Display for Count { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.set(self.0.get() + 1); write!(f, "{}", self.0.get()) } }
impl std::fmt::Debug for Count { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(self, f) } }
struct Pieces<'a>(usize, &'a Count);
impl std::fmt::Display for Pieces<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { use std::fmt::Write; for i in 0..self.0 { match i % 3 { 0 => f.write_str("ab")?, 1 => f.write_char('é')?, _ => write!(f, "{}", self.1)? } } Ok(()) } }
