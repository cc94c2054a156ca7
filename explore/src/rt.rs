//! Runtime of the bounded companion: a failing/recording global allocator, element types that
//! record every birth, clone and drop, and the case driver.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator
pub struct Alloc;
thread_local! {
    static FAIL: Cell<i64> = const { Cell::new(-1) };      // -1: never; n: the n-th request from now and all later ones fail
    static ALLOCS: Cell<u64> = const { Cell::new(0) };     // successful alloc+realloc requests
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BAD: Cell<u32> = const { Cell::new(0) };        // 1: dealloc with wrong layout, 2: double free / foreign pointer
    static ON: Cell<bool> = const { Cell::new(false) };
    static ONCE: Cell<bool> = const { Cell::new(false) };
    static LEAK_OK: Cell<bool> = const { Cell::new(false) };
}
/// The running case may leak (a destructor panicked in it).
pub fn allow_leak() { LEAK_OK.with(|l| l.set(true)) }
const MAGIC: u64 = 0xfa11_1b1e_c011_ec75;
const DEAD: u64 = 0xdead_dead_dead_dead;
const LIMIT: usize = 1 << 32;
fn head(l: &Layout) -> usize { if l.align() > 32 { l.align() } else { 32 } }
fn refuse() -> bool {
    FAIL.with(|f| {
        let v = f.get();
        if v < 0 { return false; }
        if v == 0 { if ONCE.with(|o| o.get()) { f.set(-1); } return true; }
        f.set(v - 1);
        false
    })
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT || refuse() { return std::ptr::null_mut(); }
        let h = head(&l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, l.align().max(32)));
        if p.is_null() { return p; }
        let q = p.add(h);
        *(q.sub(8) as *mut u64) = MAGIC;
        *(q.sub(16) as *mut usize) = l.size();
        *(q.sub(24) as *mut usize) = l.align();
        ALLOCS.with(|a| a.set(a.get() + 1));
        LIVE.with(|a| a.set(a.get() + 1));
        if ON.with(|o| o.get()) { std::ptr::write_bytes(q, 0xA5, l.size()); }
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let m = *(q.sub(8) as *mut u64);
        if m != MAGIC { BAD.with(|b| b.set(2)); return; }
        if *(q.sub(16) as *mut usize) != l.size() || *(q.sub(24) as *mut usize) != l.align() {
            BAD.with(|b| b.set(1));
            return;
        }
        *(q.sub(8) as *mut u64) = DEAD;
        LIVE.with(|a| a.set(a.get() - 1));
        let h = head(&l);
        if ON.with(|o| o.get()) { std::ptr::write_bytes(q, 0x5A, l.size()); }
        System.dealloc(q.sub(h), Layout::from_size_align_unchecked(l.size() + h, l.align().max(32)));
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let p = self.alloc(nl);
        if !p.is_null() {
            std::ptr::copy_nonoverlapping(q, p, l.size().min(n));
            self.dealloc(q, l);
        }
        p
    }
}
/// The n-th allocation request inside `f` and all later ones fail (n < 0: none fails).
pub fn with_alloc_fail<R>(n: i64, f: impl FnOnce() -> R) -> R {
    FAIL.with(|x| x.set(n));
    ONCE.with(|x| x.set(false));
    struct G;
    impl Drop for G { fn drop(&mut self) { FAIL.with(|x| x.set(-1)); } }
    let _g = G;
    f()
}
pub fn allocs() -> u64 { ALLOCS.with(|a| a.get()) }
pub fn live_blocks() -> i64 { LIVE.with(|a| a.get()) }
pub fn no_fail<R>(f: impl FnOnce() -> R) -> R {
    let o = FAIL.with(|x| x.replace(-1));
    let r = f();
    FAIL.with(|x| x.set(o));
    r
}

// ---------------------------------------------------------------- recorded elements
pub const NREG: usize = 1 << 16;
#[derive(Default)]
pub struct Reg { next: usize, state: Vec<u8>, live: i64, err: Option<&'static str>, derr: Option<&'static str>,
    clone_fail: i64, clone_panic: i64, drop_panic: i64, cmp_panic: i64, pub clones: u64 }
thread_local! { pub static REG: RefCell<Reg> = RefCell::new(Reg::default()); }
pub fn reg_reset() {
    REG.with(|r| { let mut r = r.borrow_mut(); r.next = 0; r.state.clear(); r.state.resize(NREG, 0); r.live = 0; r.err = None; r.derr = None;
        r.clone_fail = -1; r.clone_panic = -1; r.drop_panic = -1; r.cmp_panic = -1; r.clones = 0; })
}
pub fn reg_live() -> i64 { REG.with(|r| r.borrow().live) }
/// Elements without room for an identity (zero-sized, one byte) are only counted.
pub fn reg_add(n: i64) { REG.with(|r| r.borrow_mut().live += n) }
pub fn reg_err() -> Option<&'static str> { REG.with(|r| r.borrow().err) }
pub fn reg_derr() -> Option<&'static str> { REG.with(|r| r.borrow().derr) }
pub fn clones() -> u64 { REG.with(|r| r.borrow().clones) }
pub fn set_clone_fail(n: i64) { REG.with(|r| r.borrow_mut().clone_fail = n) }
pub fn set_clone_panic(n: i64) { REG.with(|r| r.borrow_mut().clone_panic = n) }
pub fn set_drop_panic(n: i64) { REG.with(|r| r.borrow_mut().drop_panic = n) }
pub fn set_cmp_panic(n: i64) { REG.with(|r| r.borrow_mut().cmp_panic = n) }
fn birth() -> usize {
    REG.with(|r| { let mut r = r.borrow_mut(); let i = r.next; r.next += 1; if i < NREG { r.state[i] = 1; } r.live += 1; i })
}
/// An element with identity: `v` is what it is compared and ordered by, `id` is unique per birth.
pub struct E { pub v: u32, pub id: usize, tag: u64 }
const TAG: u64 = 0x0e1e_0e1e_5afe_5afe;
impl E {
    pub fn new(v: u32) -> E { E { v, id: birth(), tag: TAG } }
    pub fn check(&self) {
        REG.with(|r| { let mut r = r.borrow_mut();
            if self.tag != TAG { r.err = Some("a slot that holds no element was exposed as an element"); }
            else if self.id < NREG && r.state.get(self.id) != Some(&1) { r.err = Some("an element was used after it had been dropped"); } })
    }
}
impl Drop for E {
    fn drop(&mut self) {
        let panic = REG.with(|r| { let mut r = r.borrow_mut();
            if self.tag != TAG { r.derr = Some("a slot that holds no element was dropped"); return false; }
            if self.id < NREG { if r.state[self.id] != 1 { r.derr = Some("an element was dropped twice"); } r.state[self.id] = 2; }
            r.live -= 1;
            if r.drop_panic == 0 { r.drop_panic = -1; true } else { if r.drop_panic > 0 { r.drop_panic -= 1; } false } });
        if panic && !std::thread::panicking() { boom("planned: drop"); }
    }
}
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.check(); o.check(); self.v == o.v } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> std::cmp::Ordering {
    self.check(); o.check();
    let p = REG.with(|r| { let mut r = r.borrow_mut(); if r.cmp_panic == 0 { r.cmp_panic = -1; true } else { if r.cmp_panic > 0 { r.cmp_panic -= 1; } false } });
    if p { boom("planned: cmp"); }
    self.v.cmp(&o.v) } }
impl std::hash::Hash for E { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.v.hash(h) } }
impl std::fmt::Debug for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.v) } }
impl std::borrow::Borrow<u32> for E { fn borrow(&self) -> &u32 { self.check(); &self.v } }
impl Clone for E { fn clone(&self) -> E { self.check(); tick_clone_panic(); E::new(self.v) } }
fn tick_clone_panic() {
    let p = REG.with(|r| { let mut r = r.borrow_mut(); if r.clone_panic == 0 { r.clone_panic = -1; true } else { if r.clone_panic > 0 { r.clone_panic -= 1; } false } });
    if p { boom("planned: clone"); }
}
impl fallible_collections::TryClone for E {
    fn try_clone(&self) -> Result<E, fallible_collections::TryReserveError> {
        self.check();
        tick_clone_panic();
        let f = REG.with(|r| { let mut r = r.borrow_mut(); r.clones += 1; if r.clone_fail == 0 { r.clone_fail = -1; true } else { if r.clone_fail > 0 { r.clone_fail -= 1; } false } });
        if f { return Err(planned_err()); }
        Ok(E::new(self.v))
    }
}
pub fn planned_err() -> fallible_collections::TryReserveError { Vec::<u64>::new().try_reserve(usize::MAX).unwrap_err() }

// ---------------------------------------------------------------- deterministic random numbers
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03) }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() >> 33) as usize % n } }
}

// ---------------------------------------------------------------- cases
pub struct Ctx { pub only: Option<u64>, pub idx: u64, pub evals: u64, pub distinct: u64, pub trace: bool, pub end: Instant, pub seed: u64,
    pub fails: Vec<(u64, String, String)>, pub samples: Vec<String>, pub max_fails: usize, pub cut: bool, pub own: bool, pub scale: u64, ms: u64 }
pub type R = Result<(), String>;
impl Ctx {
    pub fn new(seed: u64, ms: u64, only: Option<u64>, trace: bool) -> Ctx {
        Ctx { only, idx: 0, evals: 0, distinct: 0, trace, end: Instant::now() + Duration::from_millis(ms), seed, fails: vec![], samples: vec![], max_fails: 3, cut: false, own: true, scale: 1, ms }
    }
    /// How many random cases: `k` times the scale of the run.
    pub fn n(&self, k: u64) -> u64 { k * self.scale }
    /// A new time budget for the next part (the n-th part of the whole).
    pub fn stretch(&mut self, n: u64) { self.idx = (self.idx / 1_000_000 + 1) * 1_000_000; if self.fails.len() < self.max_fails { self.end = Instant::now() + Duration::from_millis(self.ms / n); } }
    pub fn out_of_time(&mut self) -> bool { if self.only.is_some() { return false; } let c = Instant::now() > self.end || self.fails.len() >= self.max_fails; if c { self.cut = true; } c }
    /// One case. The body runs with a fresh element registry; any panic in it that it does not
    /// itself expect is a failure, and so are a bad deallocation, a leaked block, a live element
    /// at the end, or an element used or dropped outside its life.
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> R) {
        let i = self.idx;
        self.idx += 1;
        if let Some(o) = self.only { if o != i { return; } }
        if self.out_of_time() { return; }
        if self.trace { eprintln!("CASE {} {}", i, desc()); }
        if self.samples.len() < 4 && (i % 997 == 0) { let d = desc(); self.samples.push(d); }
        self.evals += 1;
        reg_reset();
        BAD.with(|b| b.set(0));
        LEAK_OK.with(|l| l.set(false));
        let before = live_blocks();
        ON.with(|o| o.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        ON.with(|o| o.set(false));
        FAIL.with(|x| x.set(-1));
        let bad = BAD.with(|b| b.replace(0));
        let msg = match r {
            Ok(Ok(())) => {
                if let Some(e) = reg_err() { Some(e.to_string()) }
                else if !self.own { None }
                else if let Some(e) = reg_derr() { Some(e.to_string()) }
                else if bad == 1 { Some("a block was released with a size or alignment it was not allocated with".into()) }
                else if bad == 2 { Some("a block was released twice or was never allocated".into()) }
                else if LEAK_OK.with(|l| l.get()) { None }
                else if reg_live() != 0 { Some(format!("{} element(s) not dropped at the end (negative: dropped more often than created)", reg_live())) }
                else if live_blocks() != before { Some(format!("{} allocated block(s) not released at the end", live_blocks() - before)) }
                else { None }
            }
            Ok(Err(m)) => Some(m),
            Err(p) => {
                let t = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
                Some(format!("panicked: {}", t))
            }
        };
        if let Some(m) = msg { let d = desc(); self.fails.push((i, d, m)); }
    }
}
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } } }
fn boom(m: &'static str) -> ! { FAIL.with(|x| x.set(-1)); panic!("{}", m) }

/// The provided methods of an iterator agree with repeated `next`: `$mk` builds the iterator (it is
/// evaluated again for every check), `$want` lists what it yields, `$proj` maps an item to its value.
#[macro_export]
macro_rules! provided {
    (front $name:expr, $mk:expr, $want:expr, $proj:expr) => {{
        let want: &[_] = &$want[..];
        for a in [0usize, 1, 3] {
            if a > want.len() { continue; }
            $crate::provided!(@from $name, { let mut it = $mk; for _ in 0..a { it.next(); } it }, want[a..], $proj);
        }
    }};
    (both $name:expr, $mk:expr, $want:expr, $proj:expr) => {{
        let want: &[_] = &$want[..];
        for (a, b) in [(0usize, 0usize), (1, 0), (0, 1), (2, 3), (usize::MAX, 2), (2, usize::MAX)] {
            let (a, b) = if a == usize::MAX { (want.len().saturating_sub(2 * b), b) } else if b == usize::MAX { (a, want.len().saturating_sub(2 * a)) } else { (a, b) };
            if a + b > want.len() { continue; }
            $crate::provided!(@from $name, { let mut it = $mk; for _ in 0..a { it.next(); } for _ in 0..b { it.next_back(); } it }, want[a..want.len() - b], $proj);
            $crate::provided!(@back $name, { let mut it = $mk; for _ in 0..a { it.next(); } for _ in 0..b { it.next_back(); } it }, want[a..want.len() - b], $proj);
        }
    }};
    (@from $name:expr, $mk:expr, $w:expr, $proj:expr) => {{
        let w = &$w; let n = w.len();
        for k in [0, 1, 2, 6, 11, n / 2, n.saturating_sub(1), n, n + 1] {
            let mut it = $mk; let g = it.nth(k).map($proj);
            ensure!(g == w.get(k).copied(), "{}: nth({}) of {} items gave {:?} instead of {:?}", $name, k, n, g, w.get(k));
            let rest = &w[(k + 1).min(n)..]; let (lo, hi) = it.size_hint();
            ensure!(lo <= rest.len() && hi.map_or(true, |h| rest.len() <= h), "{}: size_hint ({}, {:?}) after nth({}) with {} items left", $name, lo, hi, k, rest.len());
            for r in rest { let g = it.next().map($proj); ensure!(g == Some(*r), "{}: next after nth({}) gave {:?} instead of {:?}", $name, k, g, r); }
            ensure!(it.next().is_none(), "{}: yields again after nth({})", $name, k);
            let mut it = $mk; let mut c = 0;
            let _: Result<(), ()> = it.try_fold((), |_, x| { let x = $proj(x); if c < n && x != w[c] { c = usize::MAX / 2; } c += 1; if c > k { Err(()) } else { Ok(()) } });
            ensure!(c == (k + 1).min(n), "{}: try_fold up to {} saw other items", $name, k);
            for r in rest { let g = it.next().map($proj); ensure!(g == Some(*r), "{}: next after try_fold up to {} gave {:?} instead of {:?}", $name, k, g, r); }
        }
        ensure!($mk.count() == n, "{}: count", $name);
        ensure!($mk.last().map($proj) == w.last().copied(), "{}: last", $name);
        ensure!($mk.min().map($proj) == w.iter().copied().min() && $mk.max().map($proj) == w.iter().copied().max(), "{}: min or max", $name);
        { let mut i = 0; $mk.for_each(|x| { if i < n && $proj(x) == w[i] { i += 1 } else { i = n + 1 } }); ensure!(i == n, "{}: for_each", $name); }
        { let i = $mk.fold(0, |i, x| if i < n && $proj(x) == w[i] { i + 1 } else { n + 1 }); ensure!(i == n, "{}: fold", $name); }
        if n > 0 { let mut it = $mk; let p = it.position(|x| $proj(x) == w[n / 2]); ensure!(p == w.iter().position(|x| *x == w[n / 2]), "{}: position", $name); }
        if n > 0 { let t = w[n / 3]; let q = w.iter().position(|x| *x == t).unwrap(); let mut it = $mk; let f = it.by_ref().map($proj).find(|x| *x == t); ensure!(f == Some(t) && it.next().map($proj) == w.get(q + 1).copied(), "{}: find", $name); }
        if n > 0 { ensure!($mk.all(|x| $proj(x) != w[n - 1]) == false && $mk.any(|x| $proj(x) == w[0]), "{}: all or any", $name); }
        for s in [2usize, 3, 7] { let mut i = 0; for x in $mk.step_by(s) { ensure!(i < n && $proj(x) == w[i], "{}: step_by({})", $name, s); i += s; } ensure!(i >= n, "{}: step_by({}) ends early", $name, s); }
        for s in [1usize, 4, n] { let mut i = s.min(n); for x in $mk.skip(s) { ensure!(i < n && $proj(x) == w[i], "{}: skip({})", $name, s); i += 1; } ensure!(i == n, "{}: skip({}) ends early", $name, s); }
        { let v: Vec<_> = $mk.collect(); ensure!(v.len() == n && v.into_iter().map($proj).eq(w.iter().copied()), "{}: collect", $name); }
        ensure!($mk.map($proj).eq(w.iter().copied()), "{}: map", $name);
    }};
    (@back $name:expr, $mk:expr, $w:expr, $proj:expr) => {{
        let w = &$w; let n = w.len();
        for k in [0, 1, 2, 6, 11, n / 2, n.saturating_sub(1), n, n + 1] {
            let mut it = $mk; let g = it.nth_back(k).map($proj);
            let x = if k < n { Some(w[n - 1 - k]) } else { None };
            ensure!(g == x, "{}: nth_back({}) of {} items gave {:?} instead of {:?}", $name, k, n, g, x);
            let rest = &w[..n.saturating_sub(k + 1)]; let (lo, hi) = it.size_hint();
            ensure!(lo <= rest.len() && hi.map_or(true, |h| rest.len() <= h), "{}: size_hint ({}, {:?}) after nth_back({}) with {} items left", $name, lo, hi, k, rest.len());
            for r in rest { let g = it.next().map($proj); ensure!(g == Some(*r), "{}: next after nth_back({}) gave {:?} instead of {:?}", $name, k, g, r); }
            ensure!(it.next_back().is_none(), "{}: yields again after nth_back({})", $name, k);
            let mut it = $mk; let mut c = 0;
            let _: Result<(), ()> = it.try_rfold((), |_, x| { let x = $proj(x); if c < n && x != w[n - 1 - c] { c = usize::MAX / 2; } c += 1; if c > k { Err(()) } else { Ok(()) } });
            ensure!(c == (k + 1).min(n), "{}: try_rfold up to {} saw other items", $name, k);
            for r in rest.iter().rev() { let g = it.next_back().map($proj); ensure!(g == Some(*r), "{}: next_back after try_rfold up to {} gave {:?} instead of {:?}", $name, k, g, r); }
        }
        { let i = $mk.rfold(0, |i, x| if i < n && $proj(x) == w[n - 1 - i] { i + 1 } else { n + 1 }); ensure!(i == n, "{}: rfold", $name); }
        { let mut i = n; for x in $mk.rev() { ensure!(i > 0 && $proj(x) == w[i - 1], "{}: rev", $name); i -= 1; } ensure!(i == 0, "{}: rev ends early", $name); }
        for s in [2usize, 5] { let mut i = n; for x in $mk.rev().step_by(s) { ensure!(i > 0 && $proj(x) == w[i - 1], "{}: rev().step_by({})", $name, s); i = i.saturating_sub(s); } ensure!(i == 0, "{}: rev().step_by({}) ends early", $name, s); }
        if n > 0 { let t = w[n - 1 - n / 3]; let q = w.iter().rposition(|x| *x == t).unwrap(); let mut it = $mk; let f = it.by_ref().map($proj).rfind(|x| *x == t); ensure!(f == Some(t) && it.next_back().map($proj) == q.checked_sub(1).map(|i| w[i]), "{}: rfind", $name); }
        ensure!($mk.rev().count() == n && $mk.rev().last().map($proj) == w.first().copied() && $mk.rev().map($proj).eq(w.iter().rev().copied()), "{}: rev().count or rev().last", $name);
    }};
}
