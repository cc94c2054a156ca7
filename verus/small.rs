// Boxes, reference-counted pointers, formatting, the hash map, TryClone.
use vstd::prelude::*;
verus! {
//@include vec_model.rsi

pub uninterp spec fn zst<T>() -> bool;

// ---- model of Box, Rc, Arc ----
/// A pointer to one value in its own allocation; `one()`: allocated for exactly one T, and owned by nobody else.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Raw<T> { p: core::marker::PhantomData<T> }
impl<T> Raw<T> {
    pub uninterp spec fn val(&self) -> T;
    pub uninterp spec fn one(&self) -> bool;
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Box<T> { p: core::marker::PhantomData<T> }
impl<T> Box<T> {
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body]
    pub fn from_raw(p: Raw<T>) -> (r: Self)
        requires p.one(), // [C07 C03]
        ensures r.val() == p.val(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_raw(b: Self) -> (r: Raw<T>) ensures r.val() == b.val(), r.one() { unimplemented!() }
    #[verifier::external_body]
    pub fn deref(&self) -> (r: &T) ensures *r == self.val() { unimplemented!() }
    /// Box::new aborts when there is no memory.
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self)
        requires false, // [C03]
        ensures r.val() == t,
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct BoxedSlice<T> { p: core::marker::PhantomData<T> }
impl<T> BoxedSlice<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
}
pub struct ManuallyDrop<T> { pub v: T }
impl<T> ManuallyDrop<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v { ManuallyDrop { v } }
}
impl<T> ManuallyDrop<BoxedSlice<T>> {
    /// The slice's memory is no longer freed by the slice: the pointer owns it.
    #[verifier::external_body]
    pub fn as_mut_ptr(self) -> (r: Raw<T>)
        ensures r.one() == (self.v.view().len() == 1), self.v.view().len() == 1 ==> r.val() == self.v.view()[0],
    { unimplemented!() }
}
impl<T> Vec<T> {
    /// Shrinks the buffer to the length: reallocates, or aborts, unless it already fits.
    #[verifier::external_body]
    pub fn into_boxed_slice(self) -> (r: BoxedSlice<T>)
        requires
            self.wf(),
            self.vcap() == self.vlen() || zst::<T>(), // [C03]
        ensures r.view() == self.view(),
    { unimplemented!() }
    /// What std does for an empty vector: exactly the amount asked for.
    #[verifier::external_body]
    pub fn vx_first_exact(&mut self, additional: usize) -> (r: Result<(), TryReserveError>)
        requires old(self).wf(), old(self).vlen() == 0,
        ensures final(self).wf(), final(self).vlen() == 0,
            r is Ok ==> final(self).room(additional as int) && (zst::<T>() || final(self).vcap() == additional || final(self).same_place(old(self))),
    { unimplemented!() }
}

impl<T> Box<T> {
//@fn src/boxed.rs | impl<T> FallibleBox<T> for Box<T> | try_new | C03 C07
//@  as FallibleBox__try_new
//@  rw /alloc::vec::Vec::new\(\)/ => Vec::vx_new()
//@  rw /vec\.try_reserve_exact\(/ => vec.vx_first_exact(
//@  rw /let ptr: \*mut T =/ => let ptr: Raw<T> =
    ensures r is Ok ==> r->Ok_0.val() == t, // [C07]
//@end
}
impl<T> Vec<T> {
    #[verifier::external_body]
    pub fn vx_new() -> (r: Self) ensures r.wf(), r.vlen() == 0, r.vcap() == 0 || zst::<T>() { unimplemented!() }
}
impl<T: TryClone> Box<T> {
//@fn src/boxed.rs | impl<T: TryClone> TryClone for Box<T> | try_clone | C03 C06
//@  as TryClone__try_clone
//@  rw /Borrow::<T>::borrow\(self\)/ => self.deref()
//@  rw /<Self as FallibleBox<T>>::try_new\(/ => Box::FallibleBox__try_new(
    ensures r is Ok ==> self.val().is_clone(r->Ok_0.val()), // [C06]
//@end
}
//@type src/boxed.rs | pub struct TryBox<T> { inner: Box<T>, }
impl<T> TryBox<T> {
    pub closed spec fn val(&self) -> T { self.inner.val() }
//@fn src/boxed.rs | impl<T> TryBox<T> | try_new | C03 C07
//@  rw /<Box<T> as FallibleBox<T>>::try_new\(/ => Box::FallibleBox__try_new(
    ensures r is Ok ==> r->Ok_0.val() == t, // [C07]
//@end
//@fn src/boxed.rs | impl<T> TryBox<T> | into_raw | C07
//@  sig /\*mut T/ => Raw<T>
    ensures r.val() == b.val(), r.one(), // [C07]
//@end
//@fn src/boxed.rs | impl<T> TryBox<T> | from_raw | C07
//@  sig /\*mut T/ => Raw<T>
    requires raw.one(),
    ensures r.val() == raw.val(), // [C07]
//@end
//@fn src/boxed.rs | impl<T> Deref for TryBox<T> | deref | C07
    ensures *r == self.val(), // [C07]
//@end
}
impl<T: TryClone> TryBox<T> {
//@fn src/boxed.rs | impl<T: TryClone> TryClone for TryBox<T> | try_clone | C03 C06
//@  as TryClone__try_clone
//@  rw /\(\*self\.inner\)/ => self.inner.deref()
    ensures r is Ok ==> self.val().is_clone(r->Ok_0.val()), // [C06]
//@end
}
impl<T: TryClone> TryClone for Option<T> {
    open spec fn is_clone(&self, c: Option<T>) -> bool { match (*self, c) { (None, None) => true, (Some(a), Some(b)) => a.is_clone(b), _ => false } }
    open spec fn never_fails() -> bool { T::never_fails() }
//@fn src/try_clone.rs | impl<T: TryClone> TryClone for Option<T> | try_clone | C06
//@end
}
// the implementations written by a macro, expanded
impl TryClone for u8 {
    open spec fn is_clone(&self, c: u8) -> bool { *self == c }
    open spec fn never_fails() -> bool { true }
//@fn src/try_clone.rs | impl TryClone for u8 | try_clone | C06
//@  sig /\s*where\s+Self: core::marker::Sized,/ => 
//@end
}
impl TryClone for u16 {
    open spec fn is_clone(&self, c: u16) -> bool { *self == c }
    open spec fn never_fails() -> bool { true }
//@fn src/try_clone.rs | impl TryClone for u16 | try_clone | C06
//@  sig /\s*where\s+Self: core::marker::Sized,/ => 
//@end
}
impl TryClone for u32 {
    open spec fn is_clone(&self, c: u32) -> bool { *self == c }
    open spec fn never_fails() -> bool { true }
//@fn src/try_clone.rs | impl TryClone for u32 | try_clone | C06
//@  sig /\s*where\s+Self: core::marker::Sized,/ => 
//@end
}
impl TryClone for u64 {
    open spec fn is_clone(&self, c: u64) -> bool { *self == c }
    open spec fn never_fails() -> bool { true }
//@fn src/try_clone.rs | impl TryClone for u64 | try_clone | C06
//@  sig /\s*where\s+Self: core::marker::Sized,/ => 
//@end
}
impl TryClone for i8 {
    open spec fn is_clone(&self, c: i8) -> bool { *self == c }
    open spec fn never_fails() -> bool { true }
//@fn src/try_clone.rs | impl TryClone for i8 | try_clone | C06
//@  sig /\s*where\s+Self: core::marker::Sized,/ => 
//@end
}
impl TryClone for i16 {
    open spec fn is_clone(&self, c: i16) -> bool { *self == c }
    open spec fn never_fails() -> bool { true }
//@fn src/try_clone.rs | impl TryClone for i16 | try_clone | C06
//@  sig /\s*where\s+Self: core::marker::Sized,/ => 
//@end
}
impl TryClone for i32 {
    open spec fn is_clone(&self, c: i32) -> bool { *self == c }
    open spec fn never_fails() -> bool { true }
//@fn src/try_clone.rs | impl TryClone for i32 | try_clone | C06
//@  sig /\s*where\s+Self: core::marker::Sized,/ => 
//@end
}
impl TryClone for i64 {
    open spec fn is_clone(&self, c: i64) -> bool { *self == c }
    open spec fn never_fails() -> bool { true }
//@fn src/try_clone.rs | impl TryClone for i64 | try_clone | C06
//@  sig /\s*where\s+Self: core::marker::Sized,/ => 
//@end
}
impl TryClone for usize {
    open spec fn is_clone(&self, c: usize) -> bool { *self == c }
    open spec fn never_fails() -> bool { true }
//@fn src/try_clone.rs | impl TryClone for usize | try_clone | C06
//@  sig /\s*where\s+Self: core::marker::Sized,/ => 
//@end
}
impl TryClone for isize {
    open spec fn is_clone(&self, c: isize) -> bool { *self == c }
    open spec fn never_fails() -> bool { true }
//@fn src/try_clone.rs | impl TryClone for isize | try_clone | C06
//@  sig /\s*where\s+Self: core::marker::Sized,/ => 
//@end
}
impl TryClone for bool {
    open spec fn is_clone(&self, c: bool) -> bool { *self == c }
    open spec fn never_fails() -> bool { true }
//@fn src/try_clone.rs | impl TryClone for bool | try_clone | C06
//@  sig /\s*where\s+Self: core::marker::Sized,/ => 
//@end
}
pub struct AllocError;
impl core::fmt::Debug for AllocError {
    #[verifier::external_body]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_alloc_error() -> TryReserveError { unimplemented!() }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Rc<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { p: core::marker::PhantomData<T> }

impl<T> Rc<T> {
    pub uninterp spec fn val(&self) -> T;
    pub uninterp spec fn id(&self) -> int; // the allocation
    pub uninterp spec fn fresh(&self) -> bool; // one owner, no weak reference
    #[verifier::external_body]
    pub fn try_new(t: T) -> (r: Result<Rc<T>, AllocError>) ensures r is Ok ==> r->Ok_0.val() == t && r->Ok_0.fresh() { unimplemented!() }
    /// aborts when there is no memory: documented as not fallible without the unstable feature
    #[verifier::external_body]
    pub fn vx_from_box(b: Box<T>) -> (r: Rc<T>) ensures r.val() == b.val(), r.fresh() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Rc<T>) ensures r.val() == self.val(), r.id() == self.id() { unimplemented!() }
//@fn src/rc.rs | impl<T> FallibleRc<T> for Rc<T> | try_new | C03 C07
//@  features unstable std
//@  as vx_unstable_try_new
//@  rw /TryReserveErrorKind::AllocError\s*\{.*?\}\s*\.into\(\)/ => vx_alloc_error()
    ensures r is Ok ==> r->Ok_0.val() == t && r->Ok_0.fresh(), // [C07]
//@end
//@fn src/rc.rs | impl<T> FallibleRc<T> for Rc<T> | try_new | C07
//@  features std
//@  as vx_stable_try_new
//@  rw /<Box<T> as FallibleBox<T>>::try_new\(/ => Box::FallibleBox__try_new(
//@  rw /\bRc::from\(/ => Rc::vx_from_box(
    ensures r is Ok ==> r->Ok_0.val() == t && r->Ok_0.fresh(), // [C07]
//@end
}

impl<T> Arc<T> {
    pub uninterp spec fn val(&self) -> T;
    pub uninterp spec fn id(&self) -> int; // the allocation
    pub uninterp spec fn fresh(&self) -> bool; // one owner, no weak reference
    #[verifier::external_body]
    pub fn try_new(t: T) -> (r: Result<Arc<T>, AllocError>) ensures r is Ok ==> r->Ok_0.val() == t && r->Ok_0.fresh() { unimplemented!() }
    /// aborts when there is no memory: documented as not fallible without the unstable feature
    #[verifier::external_body]
    pub fn vx_from_box(b: Box<T>) -> (r: Arc<T>) ensures r.val() == b.val(), r.fresh() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Arc<T>) ensures r.val() == self.val(), r.id() == self.id() { unimplemented!() }
//@fn src/arc.rs | impl<T> FallibleArc<T> for Arc<T> | try_new | C03 C07
//@  features unstable std
//@  as vx_unstable_try_new
//@  rw /TryReserveErrorKind::AllocError\s*\{.*?\}\s*\.into\(\)/ => vx_alloc_error()
    ensures r is Ok ==> r->Ok_0.val() == t && r->Ok_0.fresh(), // [C07]
//@end
//@fn src/arc.rs | impl<T> FallibleArc<T> for Arc<T> | try_new | C07
//@  features std
//@  as vx_stable_try_new
//@  rw /<Box<T> as FallibleBox<T>>::try_new\(/ => Box::FallibleBox__try_new(
//@  rw /\bArc::from\(/ => Arc::vx_from_box(
    ensures r is Ok ==> r->Ok_0.val() == t && r->Ok_0.fresh(), // [C07]
//@end
//@fn src/arc.rs | impl<T: ?Sized> TryClone for Arc<T> | try_clone | C06
//@  as TryClone__try_clone
    ensures r is Ok, // [C06]
        r->Ok_0.id() == self.id() && r->Ok_0.val() == self.val(), // [C06]
//@end
}

// ---- formatting ----
#[verifier::external_body]
pub struct Arguments { p: () }
impl Arguments { pub uninterp spec fn text(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct String { p: () }
impl String {
    pub uninterp spec fn v(&self) -> Vec<u8>;
    pub open spec fn wf(&self) -> bool { self.v().wf() }
    /// accepts any empty vector (here the only use)
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: Result<String, AllocError>)
        requires v.wf(),
        ensures v.vlen() == 0 ==> r is Ok, r is Ok ==> r->Ok_0.v() == v,
    { unimplemented!() }
    /// grows, and aborts when that is refused, unless the text fits (a formatting trait that reports an error is excluded)
    #[verifier::external_body]
    pub fn write_fmt(&mut self, args: Arguments) -> (r: Result<(), AllocError>)
        requires
            old(self).wf(),
            old(self).v().room(args.text().len() as int), // [C03 C10]
        ensures final(self).wf(), final(self).v().same_place(&old(self).v()), final(self).v().view() == old(self).v().view() + args.text(), r is Ok,
    { unimplemented!() }
}
impl Vec<u8> {
    #[verifier::external_body]
    pub fn try_with_capacity(capacity: usize) -> (r: Result<Vec<u8>, TryReserveError>)
        ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.vlen() == 0 && r->Ok_0.room(capacity as int), // proved in the vec unit
            r is Ok ==> r->Ok_0.reqs() <= 1,
    { unimplemented!() }
}
//@fn src/format.rs |  | try_format | C03 C10
//@  sig /Arguments<'_>/ => Arguments
//@  rw /FallibleVec::try_with_capacity\(/ => Vec::try_with_capacity(
    requires args.text().len() <= max_capacity,
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.v().view() =~= args.text(), // [C10]
        r is Ok ==> r->Ok_0.v().vcap() >= max_capacity, // [C10]
        r is Ok ==> r->Ok_0.v().reqs() <= 1, // [C10]
//@end
}
fn main() {}
