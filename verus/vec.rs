// The fallible vector operations (src/vec.rs).
use vstd::prelude::*;
verus! {
//@include vec_model.rsi

//@fn src/vec.rs |  | needs_to_grow | C01 C03 C05
    requires v.wf(),
    ensures !r ==> v.room(len as int),
//@end

// what an operation that added elements, or failed to reserve, did to the buffer
pub open spec fn failed_clean<T>(o: &Vec<T>, f: &Vec<T>) -> bool { f.wf() && f.vlen() == o.vlen() && f.view() == o.view() && f.same_place(o) }

impl<T> Vec<T> {
//@fn src/vec.rs | impl<T> FallibleVec<T> for Vec<T> | try_reserve | C02 C03 C05
//@  as FallibleVec__try_reserve
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        final(self).vlen() == old(self).vlen() && final(self).view() == old(self).view(), // [C02 C05]
        r is Ok ==> final(self).room(additional as int), // [C05 C03]
        r is Ok ==> final(self).grown_from(old(self), additional as int), // [C05]
        r is Err ==> failed_clean(old(self), final(self)), // [C02]
        old(self).room(additional as int) ==> r is Ok, // [C05]
//@end

//@fn src/vec.rs | impl<T> FallibleVec<T> for Vec<T> | try_push | C01 C02 C03 C04 C05
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> final(self).vlen() == old(self).vlen() + 1 && final(self).view() == old(self).view().push(elem), // [C01]
        r is Err ==> failed_clean(old(self), final(self)), // [C02]
        old(self).room(1) ==> r is Ok, // [C05]
        r is Ok ==> final(self).grown_from(old(self), 1), // [C05]
//@end

//@fn src/vec.rs | impl<T> FallibleVec<T> for Vec<T> | try_push_give_back | C01 C02 C03 C04 C05
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> final(self).vlen() == old(self).vlen() + 1 && final(self).view() == old(self).view().push(elem), // [C01]
        r is Err ==> failed_clean(old(self), final(self)), // [C02]
        r is Err ==> r->Err_0.0 == elem, // [C02]
        old(self).room(1) ==> r is Ok, // [C05]
        r is Ok ==> final(self).grown_from(old(self), 1), // [C05]
//@end

//@fn src/vec.rs | impl<T> FallibleVec<T> for Vec<T> | try_with_capacity | C01 C03 C05
//@  rw /FallibleVec::try_reserve\(/ => Vec::FallibleVec__try_reserve(
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.vlen() == 0, // [C01 C04]
        r is Ok ==> r->Ok_0.room(capacity as int), // [C05]
//@end

//@fn src/vec.rs | impl<T> FallibleVec<T> for Vec<T> | try_insert | C01 C02 C03 C04 C05
    requires old(self).wf(), index <= old(self).vlen(),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> final(self).view() == old(self).view().insert(index as int, element), // [C01]
        r is Err ==> failed_clean(old(self), final(self)), // [C02]
        r is Err ==> r->Err_0.0 == element, // [C02]
        old(self).room(1) ==> r is Ok, // [C05]
        r is Ok ==> final(self).grown_from(old(self), 1), // [C05]
//@end

//@fn src/vec.rs | impl<T> FallibleVec<T> for Vec<T> | try_append | C01 C02 C03 C04 C05
//@  rw /FallibleVec::try_reserve\(/ => Vec::FallibleVec__try_reserve(
    requires old(self).wf(), old(other).wf(),
    ensures
        final(self).wf(), final(other).wf(), // [C04]
        r is Ok ==> final(self).view() == old(self).view() + old(other).view(), // [C01]
        r is Ok ==> final(other).vlen() == 0, // [C01]
        r is Err ==> failed_clean(old(self), final(self)), // [C02]
        r is Err ==> failed_clean(old(other), final(other)), // [C02]
        old(self).room(old(other).vlen() as int) ==> r is Ok, // [C05]
        r is Ok ==> final(self).grown_from(old(self), old(other).vlen() as int), // [C05]
//@end

//@fn src/vec.rs | impl<T> FallibleVec<T> for Vec<T> | try_resize | C01 C02 C03 C04 C05
//@  rw /FallibleVec::try_reserve\(/ => Vec::FallibleVec__try_reserve(
//@  sig /Copy \+ Clone/ => Copy
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> final(self).view() == resized(old(self).view(), new_len as int, value), // [C01]
        r is Err ==> failed_clean(old(self), final(self)), // [C02]
        old(self).room(new_len - old(self).vlen()) ==> r is Ok, // [C05]
        r is Ok ==> final(self).grown_from(old(self), new_len - old(self).vlen()), // [C05]
//@end

//@fn src/vec.rs | impl<T> FallibleVec<T> for Vec<T> | try_resize_with | C01 C02 C03 C04 C05
//@  rw /FallibleVec::try_reserve\(/ => Vec::FallibleVec__try_reserve(
    requires old(self).wf(), forall|g: F| g.requires(()),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> final(self).vlen() == new_len, // [C01]
        r is Ok ==> forall|i: int| 0 <= i < new_len && i < old(self).vlen() ==> final(self).view()[i] == old(self).view()[i], // [C01]
        r is Ok ==> made_by::<T, F>(old(self).view(), final(self).view(), f), // [C01]
        r is Err ==> failed_clean(old(self), final(self)), // [C02]
        old(self).room(new_len - old(self).vlen()) ==> r is Ok, // [C05]
        r is Ok ==> final(self).grown_from(old(self), new_len - old(self).vlen()), // [C05]
//@end

//@fn src/vec.rs | impl<T> FallibleVec<T> for Vec<T> | try_resize_no_copy | C01 C02 C03 C04 C05
//@  rw /Truncate::truncate\(/ => Vec::Truncate__truncate(
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> no_copy_resized(old(self).view(), final(self).view(), new_len as int, value), // [C01]
        r is Err ==> grown_prefix(old(self).view(), final(self).view(), new_len as int, value), // [C02]
        r is Err ==> new_len > old(self).vlen(), // [C01]
        r is Ok ==> final(self).grown_from(old(self), new_len - old(self).vlen()), // [C05]
        old(self).room(new_len - old(self).vlen()) ==> final(self).same_place(old(self)), // [C05]
//@end

//@fn src/vec.rs | impl<T> FallibleVec<T> for Vec<T> | try_extend_from_slice | C01 C02 C03 C04 C05
//@  sig /Clone/ => Copy
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> final(self).view() == old(self).view() + other@, // [C01]
        r is Err ==> failed_clean(old(self), final(self)), // [C02]
        old(self).room(other@.len() as int) ==> r is Ok, // [C05]
        r is Ok ==> final(self).grown_from(old(self), other@.len() as int), // [C05]
//@end

//@fn src/vec.rs | impl<T> FallibleVec<T> for Vec<T> | try_extend_from_slice_no_copy | C01 C02 C03 C04 C05 C06
//@  rw /other\.iter\(\)/ => vx_iter(other)
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> extended(old(self).view(), final(self).view(), other@, other@.len() as int), // [C01 C06]
        T::never_fails() && r is Err ==> failed_clean(old(self), final(self)), // [C02 C09]
        r is Err ==> final(self).vlen() - old(self).vlen() <= other@.len() && extended(old(self).view(), final(self).view(), other@, final(self).vlen() - old(self).vlen()), // [C02]
        old(self).room(other@.len() as int) ==> final(self).same_place(old(self)), // [C05]
        r is Ok ==> final(self).grown_from(old(self), other@.len() as int), // [C05]
//@loop 0
    invariant
        old(self).wf(), self.wf(),
        iterator.all() == other@, iterator.pos() <= iterator.all().len(),
        len == self.vlen(), len == old(self).vlen() + iterator.pos(),
        self.room(other@.len() - iterator.pos()),
        self.grown_from(old(self), other@.len() as int),
        extended(old(self).view(), self.view(), other@, iterator.pos() as int),
    ensures iterator.pos() == other@.len(),
    decreases iterator.left(),
//@end

#[verifier::loop_isolation(false)]
//@fn src/vec.rs | impl<T> TryExtend<T> for Vec<T> | try_extend_with | C01 C02 C03 C04 C05
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> final(self).vlen() == old(self).vlen() + n, // [C01]
        old(self).vlen() <= final(self).vlen() <= old(self).vlen() + n, // [C02]
        r is Ok && n > 0 ==> value.last_is(final(self).view()[old(self).vlen() + n - 1]), // [C01]
        forall|i: int| 0 <= i < old(self).vlen() ==> final(self).view()[i] == old(self).view()[i], // [C01 C02]
        forall|i: int| old(self).vlen() <= i < final(self).vlen() && (i < old(self).vlen() + n - 1) ==> value.gives(#[trigger] final(self).view()[i]), // [C01 C02]
        r is Err ==> n > 0 && final(self).vlen() < old(self).vlen() + n || failed_clean(old(self), final(self)), // [C02]
        old(self).room(n as int) && n == 0 ==> r is Ok, // [C05]
        old(self).room(n as int) ==> final(self).same_place(old(self)), // [C05]
        final(self).same_place(old(self)) || final(self).grown_from(old(self), n as int), // [C05]
//@loop 0
    invariant
        old(self).wf(), self.wf(), vx_it0.index@ == 0 || vx_it0.index@ < n,
        local_len == self.vlen(), local_len == old(self).vlen() + vx_it0.index@,
        ptr.buf() == self.buf(), ptr.cap() == self.vcap(), ptr.idx() == local_len,
        self.room(n - vx_it0.index@),
        self.grown_from(old(self), n as int),
        forall|x: T| #[trigger] vx_value0.gives(x) == value.gives(x),
        forall|x: T| #[trigger] vx_value0.last_is(x) == value.last_is(x),
        forall|i: int| 0 <= i < old(self).vlen() ==> self.view()[i] == old(self).view()[i],
        forall|i: int| old(self).vlen() <= i < local_len ==> vx_value0.gives(#[trigger] self.view()[i]),
//@body
    let ghost vx_value0 = value;
//@end

//@fn src/vec.rs | impl<T> Truncate for Vec<T> | truncate | C01 C04
//@  as Truncate__truncate
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        final(self).view() == (if len < old(self).vlen() { old(self).view().take(len as int) } else { old(self).view() }), // [C01]
        final(self).same_place(old(self)), // [C05]
//@loop 0
    invariant
        old(self).wf(), self.same_place(old(self)),
        self.vlen() <= self.vcap() <= usize::MAX,
        forall|i: int| 0 <= i < self.vlen() ==> (#[trigger] self.slots()[i]) is Some && self.slots()[i] == old(self).slots()[i],
        forall|i: int| self.vlen() <= i < self.vcap() ==> (#[trigger] self.slots()[i]) is None,
        local_len == self.vlen(), current_len == old(self).vlen(), local_len + vx_it0.index@ == current_len,
        ptr.buf() == self.buf(), ptr.cap() == self.vcap(), ptr.idx() == local_len,
//@end
}

pub open spec fn no_copy_resized<T: TryClone>(a: Seq<T>, b: Seq<T>, n: int, x: T) -> bool {
    &&& b.len() == n
    &&& forall|i: int| 0 <= i < n && i < a.len() ==> b[i] == a[i]
    &&& forall|i: int| a.len() <= i < n - 1 ==> x.is_clone(#[trigger] b[i])
    &&& n > a.len() ==> b[n - 1] == x
}
pub open spec fn grown_prefix<T: TryClone>(a: Seq<T>, b: Seq<T>, n: int, x: T) -> bool {
    &&& a.len() <= b.len() < n
    &&& forall|i: int| 0 <= i < a.len() ==> b[i] == a[i]
    &&& forall|i: int| a.len() <= i < b.len() ==> x.is_clone(#[trigger] b[i])
}
/// `b` is `a` followed by clones of the first k elements of `s`.
pub open spec fn extended<T: TryClone>(a: Seq<T>, b: Seq<T>, s: Seq<T>, k: int) -> bool {
    &&& b.len() == a.len() + k
    &&& forall|i: int| 0 <= i < a.len() ==> b[i] == a[i]
    &&& forall|i: int| a.len() <= i < a.len() + k ==> s[i - a.len()].is_clone(#[trigger] b[i])
}

pub trait ExtendWith<T>: Sized {
    spec fn gives(&self, x: T) -> bool;
    spec fn last_is(&self, x: T) -> bool;
    fn next(&mut self) -> (r: Result<T, TryReserveError>)
        ensures
            r is Ok ==> old(self).gives(r->Ok_0), // [C01]
            forall|x: T| #[trigger] old(self).gives(x) == final(self).gives(x), // [C01]
            forall|x: T| #[trigger] old(self).last_is(x) == final(self).last_is(x), // [C01]
    ;
    fn last(self) -> (r: T)
        ensures self.last_is(r), // [C01]
    ;
}
//@type src/vec.rs | struct TryExtendElement<T: TryClone>(T);
impl<T: TryClone> ExtendWith<T> for TryExtendElement<T> {
    closed spec fn gives(&self, x: T) -> bool { self.0.is_clone(x) }
    closed spec fn last_is(&self, x: T) -> bool { self.0 == x }
//@fn src/vec.rs | impl<T: TryClone> ExtendWith<T> for TryExtendElement<T> | next | C01 C06
//@end
//@fn src/vec.rs | impl<T: TryClone> ExtendWith<T> for TryExtendElement<T> | last | C01
//@end
}

// ---- cloning, construction from other things ----
pub open spec fn all_clones<T: TryClone>(a: Seq<T>, b: Seq<T>) -> bool { extended(Seq::<T>::empty(), b, a, a.len() as int) }
impl<T: TryClone> Vec<T> {
//@fn src/vec.rs | impl<T: TryClone> TryClone for Vec<T> | try_clone | C01 C03 C04 C06
//@  as TryClone__try_clone
//@  rw /try_extend_from_slice_no_copy\(self\)/ => try_extend_from_slice_no_copy(self.vx_deref())
    requires self.wf(),
    ensures r is Ok ==> r->Ok_0.wf() && all_clones(self.view(), r->Ok_0.view()), // [C01 C06]
//@end
}
impl<T: TryClone> Vec<T> {
//@fn src/vec.rs | impl<T: TryClone> SpecFromElem for T | try_from_elem | C01 C03 C04 C06
//@  as SpecFromElem__try_from_elem
//@  sig /\bSelf\b/ => T
    ensures r is Ok ==> r->Ok_0.wf() && no_copy_resized(Seq::<T>::empty(), r->Ok_0.view(), n as int, elem), // [C01 C06]
//@end
}
impl Vec<u8> {
//@fn src/vec.rs | impl SpecFromElem for u8 | try_from_elem | C01 C03 C04
//@  owner v
//@  as SpecFromElem_u8__try_from_elem
//@  rw /FallibleVec::try_with_capacity\(/ => Vec::try_with_capacity(
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.vlen() == n, // [C01 C04]
        r is Ok ==> forall|i: int| 0 <= i < n ==> r->Ok_0.view()[i] == elem, // [C01]
//@end
}
//@fn src/vec.rs |  | try_from_elem | C01 C03 C04 C06
//@  rw /<T as SpecFromElem>::try_from_elem\(/ => Vec::<T>::SpecFromElem__try_from_elem(
    ensures r is Ok ==> r->Ok_0.wf() && no_copy_resized(Seq::<T>::empty(), r->Ok_0.view(), n as int, elem), // [C01 C06]
//@end

/// Any iterator: the items it is going to give, in order.
#[verifier::external_body]
#[verifier::accept_recursive_types(I)]
pub struct Source<I> { p: core::marker::PhantomData<I> }
impl<I> Source<I> {
    pub uninterp spec fn items(&self) -> Seq<I>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<I>)
        ensures
            old(self).items().len() == 0 ==> r is None && final(self).items() == old(self).items(),
            old(self).items().len() > 0 ==> r == Some(old(self).items()[0]) && final(self).items() == old(self).items().skip(1),
    { unimplemented!() }
}
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
/// Growing one element at a time made only logarithmically many requests.
pub open spec fn few_requests<T>(v: &Vec<T>) -> bool {
    &&& v.reqs() >= 1 ==> v.vcap() >= p2(v.reqs() - 1)
    &&& v.reqs() >= 2 ==> v.vlen() >= p2(v.reqs() - 2)
}
pub proof fn lemma_few<T>(o: &Vec<T>, f: &Vec<T>)
    requires o.wf(), f.wf(), few_requests(o), f.grown_from(o, 1), f.vlen() == o.vlen() + 1,
    ensures few_requests(f), // [C05]
{
    reveal_with_fuel(p2, 3);
    if !f.same_place(o) && o.reqs() >= 1 { assert(p2(o.reqs() as int) == 2 * p2(o.reqs() - 1)); }
}
impl<I> Vec<I> {
//@fn src/vec.rs | impl<I> TryFromIterator<I> for Vec<I> | try_from_iterator | C01 C02 C03 C04 C05
//@  sig /<T: IntoIterator<Item = I>>\(iterator: T\)/ => (iterator: Source<I>)
//@  sig /where.*$/ =>
    ensures
        r is Ok ==> r->Ok_0.wf(), // [C04]
        r is Ok ==> r->Ok_0.view() =~= iterator.items(), // [C01]
        r is Ok ==> few_requests(&r->Ok_0), // [C05]
//@loop 0
    invariant
        new.wf(), few_requests(&new),
        new.view() + vx_src1.items() =~= iterator.items(),
    ensures vx_src1.items().len() == 0,
    decreases vx_src1.items().len(),
//@at /new\.try_push/
    let ghost vx_new = new;
//@after /new\.try_push\(i\)\?;/
    proof { lemma_few(&vx_new, &new); }
//@end
}
/// collecting into a vector
impl<I> Source<I> {
//@fn src/vec.rs | impl<I, T> TryCollect<I> for T where T: IntoIterator<Item = I>, | try_collect | C01 C02 C03 C04 C05
//@  sig /<C: TryFromIterator<I>>\(/ => (
//@  sig /Result<C,/ => Result<Vec<I>,
//@  rw /\bC::/ => Vec::<I>::
    ensures
        r is Ok ==> r->Ok_0.wf(), // [C04]
        r is Ok ==> r->Ok_0.view() =~= self.items(), // [C01]
        r is Ok ==> few_requests(&r->Ok_0), // [C05]
//@end
}

// ---- TryVec: a wrapper, every operation is the one of the vector inside ----
//@type src/vec.rs | pub struct TryVec<T> { inner: Vec<T>, }
//@include fmt_model.rsi
impl<T> Vec<T> {
    #[verifier::external_body]
    pub fn fmt(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result) requires self.wf() ensures (*final(f), r) == fmt::list_shown(*old(f), self.view()) { unimplemented!() }
}
impl<T> TryVec<T> {
    pub closed spec fn iv(&self) -> &Vec<T> { &self.inner }
    pub open spec fn wf(&self) -> bool { self.iv().wf() }
    pub open spec fn view(&self) -> Seq<T> { self.iv().view() }

//@fn src/vec.rs | impl<T> TryVec<T> | new | C01
    ensures r.wf(), r.iv().vlen() == 0, // [C01]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | into_inner | C01
    ensures r == *self.iv(), // [C01]
//@end
//@fn src/vec.rs | impl<T> Default for TryVec<T> | default | C01
//@  rw /Default::default\(\)/ => Vec::new()
    ensures r.wf(), r.iv().vlen() == 0, // [C01]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | with_capacity | C01 C03 C05
//@  rw /FallibleVec::try_with_capacity\(/ => Vec::try_with_capacity(
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.iv().vlen() == 0, // [C01]
        r is Ok ==> r->Ok_0.iv().room(capacity as int), // [C05]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | append | C01 C02 C03 C04 C05
//@  rw /FallibleVec::try_append\(/ => Vec::try_append(
    requires old(self).wf(), old(other).wf(),
    ensures
        final(self).wf(), final(other).wf(), // [C04]
        r is Ok ==> final(self).view() == old(self).view() + old(other).view(), // [C01]
        r is Ok ==> final(other).iv().vlen() == 0, // [C01]
        r is Err ==> failed_clean(old(self).iv(), final(self).iv()), // [C02]
        r is Err ==> failed_clean(old(other).iv(), final(other).iv()), // [C02]
        old(self).iv().room(old(other).iv().vlen() as int) ==> r is Ok, // [C05]
        r is Ok ==> final(self).iv().grown_from(old(self).iv(), old(other).iv().vlen() as int), // [C05]
//@end
//@fn src/vec.rs | impl<T: core::fmt::Debug> core::fmt::Debug for TryVec<T> | fmt | C20
//@  sig /core::fmt::/ => fmt::
    requires self.wf(),
    ensures (*final(f), r) == fmt::list_shown(*old(f), self.view()), // [C20]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | clear | C01 C04
    requires old(self).wf(),
    ensures final(self).wf(), // [C04]
        final(self).iv().vlen() == 0, // [C01]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | is_empty | C01
    ensures r == (self.iv().vlen() == 0), // [C01]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | pop | C01 C04
    requires old(self).wf(),
    ensures final(self).wf(), // [C04]
        old(self).iv().vlen() == 0 ==> r is None && final(self).view() == old(self).view(), // [C01]
        old(self).iv().vlen() > 0 ==> r == Some(old(self).view().last()) && final(self).view() == old(self).view().drop_last(), // [C01]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | push | C01 C02 C03 C04 C05
//@  rw /FallibleVec::try_push\(/ => Vec::try_push(
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> final(self).view() == old(self).view().push(value), // [C01]
        r is Err ==> failed_clean(old(self).iv(), final(self).iv()), // [C02]
        old(self).iv().room(1) ==> r is Ok, // [C05]
        r is Ok ==> final(self).iv().grown_from(old(self).iv(), 1), // [C05]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | reserve | C02 C03 C05
//@  rw /FallibleVec::try_reserve\(/ => Vec::FallibleVec__try_reserve(
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        final(self).iv().vlen() == old(self).iv().vlen() && final(self).view() == old(self).view(), // [C02 C05]
        r is Ok ==> final(self).iv().room(additional as int), // [C05 C03]
        r is Ok ==> final(self).iv().grown_from(old(self).iv(), additional as int), // [C05]
        r is Err ==> failed_clean(old(self).iv(), final(self).iv()), // [C02]
        old(self).iv().room(additional as int) ==> r is Ok, // [C05]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | resize_with | C01 C02 C03 C04 C05
//@  rw /FallibleVec::try_resize_with\(/ => Vec::try_resize_with(
    requires old(self).wf(), forall|g: F| g.requires(()),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> final(self).iv().vlen() == new_len, // [C01]
        r is Ok ==> made_by::<T, F>(old(self).view(), final(self).view(), f), // [C01]
        r is Ok ==> forall|i: int| 0 <= i < new_len && i < old(self).iv().vlen() ==> final(self).view()[i] == old(self).view()[i], // [C01]
        r is Err ==> failed_clean(old(self).iv(), final(self).iv()), // [C02]
        old(self).iv().room(new_len - old(self).iv().vlen()) ==> r is Ok, // [C05]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | as_slice | C01
//@  rw /^\{\s*self\s*\}$/ => { self.deref() }
    requires self.wf(),
    ensures r@ == self.view(), // [C01]
//@end
//@fn src/vec.rs | impl<T> core::ops::Deref for TryVec<T> | deref | C01
//@  rw /self\.inner\.deref\(\)/ => self.inner.vx_deref()
    requires self.wf(),
    ensures r@ == self.view(), // [C01]
//@end
//@fn src/vec.rs | impl<T> core::convert::From<Vec<T>> for TryVec<T> | from | C01
    requires value.wf(),
    ensures r.wf(), *r.iv() == value, // [C01]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | iter | C01
//@  as TryVec__iter
//@  sig /Iter<T>/ => Iter<'_, T>
//@  rw /self\.inner\.iter\(\)/ => vx_iter(self.inner.vx_deref())
    requires self.wf(),
    ensures r.iall() == self.view() && r.ipos() == 0, // [C01]
//@end
//@fn src/vec.rs | impl<'a, T> IntoIterator for &'a TryVec<T> | into_iter | C01
//@  as TryVec_ref__into_iter
//@  sig /Self::IntoIter/ => SliceIter<'_, T>
//@  rw /self\.inner\.iter\(\)/ => vx_iter(self.inner.vx_deref())
//@  sig /\(self\)/ => (&self)
    requires self.wf(),
    ensures r.all() == self.view() && r.pos() == 0, // [C01]
//@end
}
// by value, by mutable reference, as a slice, equality
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecIntoIter<T> { p: core::marker::PhantomData<T> }
impl<T> VecIntoIter<T> { pub uninterp spec fn all(&self) -> Seq<T>; }
/// `a == b` element by element with the elements' own equality
pub uninterp spec fn same_elems<T>(a: Seq<T>, b: Seq<T>) -> bool;
/// A mutable-slice iterator: the addresses it still yields are those of the elements from `pos` on.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SliceIterMut<'a, T> { p: core::marker::PhantomData<&'a T> }
impl<'a, T> SliceIterMut<'a, T> {
    pub uninterp spec fn all(&self) -> Seq<T>; // the values as the iterator found them
    pub uninterp spec fn pos(&self) -> nat;
    pub uninterp spec fn to(&self) -> Seq<T>; // the values the slice has when the iterator and what it lent are gone
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut T>)
        ensures final(self).all() == old(self).all(), final(self).to() == old(self).to(),
            old(self).pos() < old(self).all().len() ==> r is Some && *r->Some_0 == old(self).all()[old(self).pos() as int] && *final(r->Some_0) == old(self).to()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.pos() <= self.all().len() <= usize::MAX,
        ensures r.0 == self.all().len() - self.pos(), r.1 == Some(r.0),
    { unimplemented!() }
}
impl<T> Vec<T> {
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: VecIntoIter<T>) requires self.wf() ensures r.all() == self.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn deref_mut(&mut self) -> (r: &mut [T])
        requires old(self).wf(),
        ensures r@ == old(self).view(), final(self).wf(), final(self).view() == final(r)@, final(self).same_place(old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_mut(&mut self) -> (r: SliceIterMut<'_, T>)
        requires old(self).wf(),
        ensures r.all() == old(self).view(), r.pos() == 0, final(self).wf(), final(self).view() == r.to(), r.to().len() == r.all().len(), final(self).same_place(old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn eq(&self, o: &Vec<T>) -> (r: bool) requires self.wf(), o.wf() ensures r == same_elems(self.view(), o.view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_eq_slice(&self, o: &[T]) -> (r: bool) requires self.wf() ensures r == same_elems(self.view(), o@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_slice_eq<T>(a: &[T], b: &[T]) -> (r: bool) ensures r == same_elems(a@, b@) { unimplemented!() }
//@type src/vec.rs | pub struct IterMut<'a, T> { inner: alloc::slice::IterMut<'a, T>, } => pub struct IterMut<'a, T> { pub inner: SliceIterMut<'a, T>, }
impl<'a, T> IterMut<'a, T> {
//@fn src/vec.rs | impl<'a, T> Iterator for IterMut<'a, T> | next | C01
//@  sig /Self::Item/ => &'a mut T
    ensures final(self).inner.all() == old(self).inner.all(), final(self).inner.to() == old(self).inner.to(), // [C01]
        old(self).inner.pos() < old(self).inner.all().len() ==> r is Some && *r->Some_0 == old(self).inner.all()[old(self).inner.pos() as int] && *final(r->Some_0) == old(self).inner.to()[old(self).inner.pos() as int] && final(self).inner.pos() == old(self).inner.pos() + 1, // [C01]
        old(self).inner.pos() >= old(self).inner.all().len() ==> r is None && final(self).inner.pos() == old(self).inner.pos(), // [C01]
//@end
//@fn src/vec.rs | impl<'a, T> Iterator for IterMut<'a, T> | size_hint | C01
    requires self.inner.pos() <= self.inner.all().len() <= usize::MAX,
    ensures r.0 == self.inner.all().len() - self.inner.pos(), r.1 == Some(r.0), // [C01]
//@end
}
impl<T> TryVec<T> {
//@fn src/vec.rs | impl<T> TryVec<T> | iter_mut | C01
//@  as TryVec__iter_mut
//@  sig /IterMut<T>/ => IterMut<'_, T>
    requires old(self).wf(),
    ensures r.inner.all() == old(self).view() && r.inner.pos() == 0 && final(self).view() == r.inner.to() && final(self).wf(), // [C01]
//@end
//@fn src/vec.rs | impl<T> core::ops::DerefMut for TryVec<T> | deref_mut | C01
    requires old(self).wf(),
    ensures r@ == old(self).view() && final(self).view() == final(r)@ && final(self).wf(), // [C01]
//@end
//@fn src/vec.rs | impl<T> TryVec<T> | as_mut_slice | C01
//@  rw /^\{\s*self\s*\}$/ => { self.deref_mut() }
    requires old(self).wf(),
    ensures r@ == old(self).view() && final(self).view() == final(r)@ && final(self).wf(), // [C01]
//@end
//@fn src/vec.rs | impl<T> IntoIterator for TryVec<T> | into_iter | C01 C04
//@  as TryVec__into_iter
//@  sig /Self::IntoIter/ => VecIntoIter<T>
    requires self.wf(),
    ensures r.all() == self.view(), // [C01]
//@end
//@fn src/vec.rs | impl<T: PartialEq> PartialEq<Vec<T>> for TryVec<T> | eq | C20 C01
//@  as TryVec__eq_vec
    requires self.wf(), other.wf(),
    ensures r == same_elems(self.view(), other.view()), // [C20 C01]
//@end
//@fn src/vec.rs | impl<T: PartialEq> PartialEq for TryVec<T> | eq | C20 C01
//@  as TryVec__eq
//@  rw /self\.inner == other\.inner/ => self.inner.eq(&other.inner)
    requires self.wf(), other.wf(),
    ensures r == same_elems(self.view(), other.view()), // [C20 C01]
//@end
//@fn src/vec.rs | impl<'a, T: PartialEq> PartialEq<&'a [T]> for TryVec<T> | eq | C20 C01
//@  as TryVec__eq_slice
//@  rw /self\.inner\.eq\(other\)/ => self.inner.vx_eq_slice(*other)
    requires self.wf(),
    ensures r == same_elems(self.view(), other@), // [C20 C01]
//@end
}
impl TryVec<u8> {
//@fn src/vec.rs | impl PartialEq<&str> for TryVec<u8> | eq | C20 C01
//@  as TryVec__eq_str
//@  sig /&&str/ => &&VxStr
//@  rw /self\.as_slice\(\) == other\.as_bytes\(\)/ => vx_slice_eq(self.as_slice(), other.as_bytes())
    requires self.wf(),
    ensures r == same_elems(self.view(), other.bytes()), // [C20 C01]
//@end
//@fn src/vec.rs | impl core::convert::AsRef<[u8]> for TryVec<u8> | as_ref | C01
//@  rw /self\.inner\.as_ref\(\)/ => self.inner.vx_deref()
    requires self.wf(),
    ensures r@ == self.view(), // [C01]
//@end
}
//@type src/vec.rs | pub struct Iter<'a, T> { inner: alloc::slice::Iter<'a, T>, } => pub struct Iter<'a, T> { inner: SliceIter<'a, T>, }
impl<'a, T> Iter<'a, T> {
    pub closed spec fn iall(&self) -> Seq<T> { self.inner.all() }
    pub closed spec fn ipos(&self) -> nat { self.inner.pos() }
//@fn src/vec.rs | impl<'a, T> Iterator for Iter<'a, T> | next | C01
//@  sig /Self::Item/ => &'a T
    ensures final(self).iall() == old(self).iall(),
        old(self).ipos() < old(self).iall().len() ==> r == Some(&old(self).iall()[old(self).ipos() as int]) && final(self).ipos() == old(self).ipos() + 1, // [C01]
        old(self).ipos() >= old(self).iall().len() ==> r is None && final(self).ipos() == old(self).ipos(), // [C01]
//@end
//@fn src/vec.rs | impl<'a, T> Iterator for Iter<'a, T> | size_hint | C01
    requires self.ipos() <= self.iall().len() <= usize::MAX,
    ensures r.0 == self.iall().len() - self.ipos(), r.1 == Some(r.0), // [C01]
//@end
}
impl<T: TryClone> TryVec<T> {
//@fn src/vec.rs | impl<T: TryClone> TryVec<T> | extend_from_slice | C01 C02 C03 C04 C05 C06 C09
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04]
        r is Ok ==> extended(old(self).view(), final(self).view(), other@, other@.len() as int), // [C01 C06 C09]
        T::never_fails() && r is Err ==> failed_clean(old(self).iv(), final(self).iv()), // [C02 C09]
        r is Err ==> final(self).iv().vlen() - old(self).iv().vlen() <= other@.len() && extended(old(self).view(), final(self).view(), other@, final(self).iv().vlen() - old(self).iv().vlen()), // [C02]
        old(self).iv().room(other@.len() as int) ==> final(self).iv().same_place(old(self).iv()), // [C05]
        r is Ok ==> final(self).iv().grown_from(old(self).iv(), other@.len() as int), // [C05]
//@end
//@fn src/vec.rs | impl<T: TryClone> core::convert::TryFrom<&[T]> for TryVec<T> | try_from | C01 C03 C04 C06
//@  as TryFrom__try_from
//@  sig /Self::Error/ => TryReserveError
    ensures r is Ok ==> r->Ok_0.wf() && all_clones(value@, r->Ok_0.view()), // [C01 C06]
//@end
//@fn src/vec.rs | impl<T: TryClone> TryClone for TryVec<T> | try_clone | C01 C03 C04 C06
//@  as TryClone__try_clone
//@  rw /self\.as_slice\(\)\.try_into\(\)/ => TryVec::TryFrom__try_from(self.as_slice())
    requires self.wf(),
    ensures r is Ok ==> r->Ok_0.wf() && all_clones(self.view(), r->Ok_0.view()), // [C01 C06]
//@end
}

// concat
pub open spec fn flat<T>(s: Seq<TryVec<T>>, k: int) -> Seq<T> decreases k {
    if k <= 0 { Seq::empty() } else { flat(s, k - 1) + s[k - 1].view() }
}
proof fn lemma_flat_mono<T>(s: Seq<TryVec<T>>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures flat(s, a).len() <= flat(s, b).len(),
    decreases b - a,
{
    if a < b { lemma_flat_mono(s, a, b - 1); }
}
proof fn lemma_concat<T: TryClone>(a: Seq<T>, o: Seq<T>, x: Seq<T>, f: Seq<T>)
    requires all_clones(a, o), extended(o, f, x, x.len() as int),
    ensures all_clones(a + x, f),
{
    assert forall|i: int| 0 <= i < (a + x).len() implies (a + x)[i].is_clone(#[trigger] f[i]) by {
        if i < a.len() { assert(f[i] == o[i]); assert(a[i - Seq::<T>::empty().len()].is_clone(o[i])); } else { assert(x[i - a.len()].is_clone(f[i])); }
    }
}
/// no vector of bytes has more room than isize::MAX
#[verifier::external_body]
pub proof fn axiom_bytes(v: &Vec<u8>) ensures v.vcap() <= isize::MAX { }
/// panics on Ok
#[verifier::external_body]
pub fn vx_unwrap_err<T>(r: Result<T, TryReserveError>) -> (e: TryReserveError) requires r is Err ensures r == Err::<T, TryReserveError>(e) { unimplemented!() }
//@fn src/vec.rs |  | capacity_overflow | C03
//@  rw /(\w+)\.try_reserve\(([^()]*)\)\.unwrap_err\(\)/ => let vx_r = \1.try_reserve(\2); proof { axiom_bytes(&\1); } vx_unwrap_err(vx_r)
//@  rw /core::usize::MAX/ => usize::MAX
//@end
impl<T: TryClone> TryVec<TryVec<T>> {
//@fn src/vec.rs | impl<T: TryClone> TryVec<TryVec<T>> | concat | C01 C03 C04 C05 C06
//@  rw /self\s*\.iter\(\)\s*\.try_fold\(0usize, \|size, v\| size\.checked_add\(v\.inner\.len\(\)\)\)/ => { let mut vx_acc: Option<usize> = Some(0usize); let mut vx_it = self.TryVec__iter(); while let Some(v) = vx_it.next() { let size = match vx_acc { Some(s) => s, None => 0 }; vx_acc = size.checked_add(v.inner.len()); if vx_acc.is_none() { break; } } vx_acc }
//@  rw /for v in self\.iter\(\)/ => for v in self.TryVec__iter()
//@  rw /ok_or_else\(capacity_overflow\)/ => ok_or_else(|| capacity_overflow())
//@  rw /try_extend_from_slice_no_copy\(&v\.inner\)/ => try_extend_from_slice_no_copy(v.inner.vx_deref())
    requires self.wf(), forall|i: int| 0 <= i < self.view().len() ==> (#[trigger] self.view()[i]).wf(),
    ensures
        r is Ok ==> r->Ok_0.wf() && all_clones(flat(self.view(), self.view().len() as int), r->Ok_0.view()), // [C01 C06]
//@loop 0
    invariant_except_break vx_acc is Some,
    invariant
        vx_it.iall() == self.view(), vx_it.ipos() <= vx_it.iall().len(),
        forall|i: int| 0 <= i < self.view().len() ==> (#[trigger] self.view()[i]).wf(),
        vx_acc is Some ==> vx_acc->0 == flat(self.view(), vx_it.ipos() as int).len(),
    ensures vx_acc is Some ==> vx_acc->0 == flat(self.view(), self.view().len() as int).len(),
    decreases vx_it.iall().len() - vx_it.ipos(),
//@loop 1
    invariant
        result.wf(),
        vx_src1.iall() == self.view(), vx_src1.ipos() <= vx_src1.iall().len(),
        forall|i: int| 0 <= i < self.view().len() ==> (#[trigger] self.view()[i]).wf(),
        all_clones(flat(self.view(), vx_src1.ipos() as int), result.view()),
    ensures vx_src1.ipos() == self.view().len(),
    decreases vx_src1.iall().len() - vx_src1.ipos(),
//@at /result\.inner\.try_extend/
    let ghost vx_r = result.view();
//@after /try_extend_from_slice_no_copy\(v\.inner\.vx_deref\(\)\)\?;/
    proof { lemma_concat(flat(self.view(), vx_src1.ipos() - 1), vx_r, v.view(), result.view()); }
//@end
}

// ---- TryClone of the integers (instances of the macro, whose body is checked to be this text) ----
//@type src/try_clone.rs | fn try_clone(&self) -> Result<Self, TryReserveError> where Self: core::marker::Sized, { Ok(*self) } => impl TryClone for u8 { open spec fn is_clone(&self, c: u8) -> bool { *self == c } open spec fn never_fails() -> bool { true } fn try_clone(&self) -> (r: Result<Self, TryReserveError>) { Ok(*self) } }
pub proof fn lemma_u8_clones(a: Seq<u8>, b: Seq<u8>, s: Seq<u8>, k: int)
    requires extended(a, b, s, k), 0 <= k <= s.len(),
    ensures b =~= a + s.take(k), // [C09]
{
    assert forall|i: int| 0 <= i < b.len() implies b[i] == (a + s.take(k))[i] by {
        if i >= a.len() { assert(s[i - a.len()].is_clone(b[i])); }
    }
}

// ---- reading and writing ----
global size_of usize == 8;
pub mod io {
    use vstd::prelude::*;
    verus! {
    pub enum ErrorKind { OutOfMemory, Other, InvalidInput, UnexpectedEof, WriteZero, Interrupted, InvalidData }
    #[verifier::external_body]
    pub struct Error { p: () }
    impl Error {
        /// from a kind: does not allocate
        #[verifier::external_body]
        pub fn from(k: ErrorKind) -> Error { unimplemented!() }
        /// boxes its argument: aborts when there is no memory
        #[verifier::external_body]
        pub fn new<E>(k: ErrorKind, e: E) -> Error
            requires false, // [C03 C09]
        { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;
    }
}
#[verifier::external_body]
pub struct VxIntError { p: () }
#[verifier::external_body]
pub fn vx_u64_to_usize(x: u64) -> (r: Result<usize, VxIntError>) ensures r is Ok, r->Ok_0 == x { unimplemented!() }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
/// Any `Read`er: the bytes it still has, the largest number it may give (of a Take), and how often it was read.
#[verifier::external_body]
pub struct VxRead { p: () }
impl VxRead {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn lim(&self) -> u64;
    pub uninterp spec fn reads(&self) -> nat;
    #[verifier::external_body]
    pub fn limit(&self) -> (r: u64) ensures r == self.lim() { unimplemented!() }
    /// `self.by_ref().take(limit).read_to_end(buf)`: needs no memory where `limit` bytes fit.
    #[verifier::external_body]
    pub fn vx_take_read_to_end(&mut self, limit: u64, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        requires
            old(buf).wf(),
            old(buf).room(limit as int), // [C03 C05 C09]
        ensures
            final(buf).wf(), final(buf).same_place(old(buf)),
            final(self).reads() == old(self).reads() + 1,
            r is Ok ==> r->Ok_0 == min(limit as int, old(self).bytes().len() as int),
            r is Ok ==> final(buf).view() == old(buf).view() + old(self).bytes().take(r->Ok_0 as int),
            r is Ok ==> final(self).bytes() == old(self).bytes().skip(r->Ok_0 as int),
            r is Err ==> read_prefix(old(self), &*final(self), old(buf).view(), final(buf).view(), limit as int),
    { unimplemented!() }
}
/// After a read error: the old content, then a prefix of what the source had.
pub open spec fn read_prefix(so: &VxRead, sf: &VxRead, b: Seq<u8>, f: Seq<u8>, limit: int) -> bool {
    &&& b.len() <= f.len() <= b.len() + min(limit, so.bytes().len() as int)
    &&& f == b + so.bytes().take(f.len() - b.len())
    &&& sf.reads() == so.reads() + 1
}
//@fn src/vec.rs |  | try_read_up_to | C03 C05 C09
//@  sig /<R: Read>/ =>
//@  sig /&mut R\b/ => &mut VxRead
//@  rw /limit\s*\.try_into\(\)/ => vx_u64_to_usize(limit)
//@  rw /src\.take\(limit\)\.read_to_end\(&mut buf\.inner\)/ => src.vx_take_read_to_end(limit, &mut buf.inner)
    requires old(buf).wf(),
    ensures
        final(buf).wf(), // [C04 C09]
        r is Ok ==> r->Ok_0 == min(limit as int, old(src).bytes().len() as int), // [C09]
        r is Ok ==> final(buf).view() =~= old(buf).view() + old(src).bytes().take(r->Ok_0 as int), // [C09]
        r is Ok ==> final(src).bytes() == old(src).bytes().skip(r->Ok_0 as int), // [C09]
        r is Err ==> read_prefix(old(src), &*final(src), old(buf).view(), final(buf).view(), limit as int) || (*final(src) == *old(src) && failed_clean(old(buf).iv(), final(buf).iv())), // [C09 C02]
        r is Ok && old(buf).iv().room(limit as int) ==> final(buf).iv().same_place(old(buf).iv()), // [C05]
        old(buf).iv().room(limit as int) && r is Err ==> final(src).reads() > old(src).reads(), // [C09]
//@end
impl VxRead {
//@fn src/vec.rs | impl<T: Read> TryRead for Take<T> | try_read_to_end | C03 C09
    requires old(buf).wf(), old(self).bytes().len() <= old(self).lim(),
    ensures
        final(buf).wf(), // [C04 C09]
        r is Ok ==> r->Ok_0 == old(self).bytes().len(), // [C09]
        r is Ok ==> final(buf).view() =~= old(buf).view() + old(self).bytes(), // [C09]
        r is Err ==> read_prefix(old(self), &*final(self), old(buf).view(), final(buf).view(), old(self).lim() as int) || (*final(self) == *old(self) && failed_clean(old(buf).iv(), final(buf).iv())), // [C09 C02]
//@end
//@fn src/vec.rs | pub trait TryRead | read_into_try_vec | C03 C09
    requires old(self).bytes().len() <= old(self).lim(),
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.view() =~= old(self).bytes(), // [C09]
//@end
}
impl TryVec<u8> {
//@fn src/vec.rs | impl Write for TryVec<u8> | write | C03 C09
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C04 C09]
        r is Ok ==> r->Ok_0 == buf@.len(), // [C09]
        r is Ok ==> extended(old(self).view(), final(self).view(), buf@, buf@.len() as int), // [C09]
        r is Err ==> failed_clean(old(self).iv(), final(self).iv()), // [C09 C02]
//@end
//@fn src/vec.rs | impl Write for TryVec<u8> | flush | C09
    requires old(self).wf(),
    ensures *final(self) == *old(self), // [C09]
        r is Ok, // [C09]
//@end
//@fn src/vec.rs | impl core::convert::TryFrom<&str> for TryVec<u8> | try_from | C01 C03
//@  as TryFromStr__try_from
//@  sig /Self::Error/ => TryReserveError
//@  sig /&str/ => &VxStr
    ensures r is Ok ==> r->Ok_0.wf() && all_clones(value.bytes(), r->Ok_0.view()), // [C01]
//@end
}
#[verifier::external_body]
pub struct VxStr { p: () }
impl VxStr {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
}
}
fn main() {}
