// The hash map (src/hashmap.rs).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub struct TryReserveError { p: () }
pub trait TryClone: Sized {
    spec fn is_clone(&self, c: Self) -> bool;
    fn try_clone(&self) -> (r: Result<Self, TryReserveError>)
        ensures r is Ok ==> self.is_clone(r->Ok_0), // [C06 C08]
    ;
}
/// Keys are equal (Eq, consistent with Hash and Borrow, as their contracts demand) when they are in the same class.
pub uninterp spec fn class<K>(k: K) -> int;
pub uninterp spec fn qclass<Q: ?Sized>(q: &Q) -> int;

// ---- model of std / hashbrown HashMap ----
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IntoIter<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K, V> IntoIter<K, V> { pub uninterp spec fn entries(&self) -> Map<int, (K, V)>; }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct Iter<'a, K, V> { p: core::marker::PhantomData<&'a (K, V)> }
impl<'a, K, V> Iter<'a, K, V> {
    /// yields, in some order, each of these once
    pub uninterp spec fn entries(&self) -> Map<int, (K, V)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures
            old(self).entries().dom().finite() ==> final(self).entries().dom().finite(),
            r is None ==> old(self).entries() == Map::<int, (K, V)>::empty() && final(self).entries() == old(self).entries(),
            r is Some ==> ({
                let c = class(*r->Some_0.0);
                &&& old(self).entries().dom().contains(c)
                &&& old(self).entries()[c] == (*r->Some_0.0, *r->Some_0.1)
                &&& final(self).entries() == old(self).entries().remove(c)
            }),
    { unimplemented!() }
}

impl<K, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<int, (K, V)>;
    pub uninterp spec fn left(&self) -> nat; // new keys that fit without growing
    pub uninterp spec fn reqs(&self) -> nat; // allocation requests made for this map so far
    pub open spec fn wf(&self) -> bool {
        &&& self.m().dom().finite()
        &&& self.m().len() <= usize::MAX
        &&& forall|c: int| #[trigger] self.m().dom().contains(c) ==> class(self.m()[c].0) == c
    }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.wf(), r.m() == Map::<int, (K, V)>::empty(), r.left() == 0, r.reqs() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self.m().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) requires self.wf() ensures r == (self.m().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) requires self.wf() ensures r == self.m().len() + self.left() { unimplemented!() }
    #[verifier::external_body]
    pub fn try_reserve(&mut self, additional: usize) -> (r: Result<(), TryReserveError>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).m() == old(self).m(),
            r is Ok ==> final(self).left() >= additional,
            r is Err ==> final(self).left() == old(self).left() && final(self).reqs() == old(self).reqs(),
            old(self).left() >= additional ==> r is Ok && final(self).left() == old(self).left() && final(self).reqs() == old(self).reqs(),
            final(self).reqs() <= old(self).reqs() + 1,
    { unimplemented!() }
    /// aborts when it has to grow and that is refused: it may be used only where there is room
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        requires
            old(self).wf(),
            old(self).left() >= 1, // [C03 C08]
        ensures final(self).wf(), final(self).reqs() == old(self).reqs(), final(self).left() + 1 >= old(self).left(),
            old(self).m().dom().contains(class(k)) ==> r == Some(old(self).m()[class(k)].1) && final(self).m() == old(self).m().insert(class(k), (old(self).m()[class(k)].0, v)),
            !old(self).m().dom().contains(class(k)) ==> r is None && final(self).m() == old(self).m().insert(class(k), (k, v)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        requires self.wf(),
        ensures r is Some == self.m().dom().contains(qclass(k)), r is Some ==> *r->0 == self.m()[qclass(k)].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> (r: bool)
        requires self.wf(),
        ensures r == self.m().dom().contains(qclass(k)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        requires old(self).wf(),
        ensures final(self).wf(), r is Some == old(self).m().dom().contains(qclass(k)), r is Some ==> r->0 == old(self).m()[qclass(k)].1,
            final(self).m() == old(self).m().remove(qclass(k)), final(self).reqs() == old(self).reqs(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Iter<'_, K, V>)
        requires self.wf(),
        ensures r.entries() == self.m(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: IntoIter<K, V>)
        requires self.wf(),
        ensures r.entries() == self.m(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).m() == Map::<int, (K, V)>::empty(), final(self).reqs() == old(self).reqs(),
    { unimplemented!() }
}
/// the entries of m in some order
pub open spec fn lists<K, V>(s: Seq<(K, V)>, m: Map<int, (K, V)>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(class((#[trigger] s[i]).0)) && m[class(s[i].0)] == s[i]
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> class((#[trigger] s[i]).0) != class((#[trigger] s[j]).0)
}
//@include fmt_model.rsi
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn fmt(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result)
        requires self.wf(),
        ensures exists|s: Seq<(K, V)>| lists(s, self.m()) && (*final(f), r) == #[trigger] fmt::map_shown(*old(f), s),
    { unimplemented!() }
}
//@type src/hashmap.rs | pub struct TryHashMap<K, V> { inner: HashMap<K, V>, } => pub struct TryHashMap<K, V> { pub inner: HashMap<K, V>, }

//@fn src/hashmap.rs |  | make_try_reserve_error | C03
//@  rw /\balloc::vec::Vec<\[u8; 1024\]> = alloc::vec::Vec::new\(\)/ => VxKilo = VxKilo::new()
//@  rw /\.unwrap_err\(\)/ => .vx_unwrap_err()
//@  rw /!0\b/ => usize::MAX
//@end
#[verifier::external_body]
pub struct VxKilo { p: () }
impl VxKilo {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    /// a request for more than isize::MAX bytes is refused without reaching the allocator
    #[verifier::external_body]
    pub fn try_reserve(&mut self, n: usize) -> (r: VxRes) ensures r.r is Err == (n * 1024 > isize::MAX) { unimplemented!() }
}
pub struct VxRes { pub r: Result<(), TryReserveError> }
impl VxRes {
    pub fn vx_unwrap_err(self) -> TryReserveError
        requires self.r is Err, // [C03]
    { match self.r { Err(e) => e, Ok(_) => { proof { assert(false); } vx_never() } } }
}
#[verifier::external_body]
fn vx_never() -> TryReserveError requires false { unimplemented!() }

impl<K, V> TryHashMap<K, V> {
    pub open spec fn wf(&self) -> bool { self.inner.wf() }
    pub open spec fn m(&self) -> Map<int, (K, V)> { self.inner.m() }

//@fn src/hashmap.rs | impl<K, V> Default for TryHashMap<K, V> | default | C08
//@  rw /Default::default\(\)/ => HashMap::new()
    ensures r.wf(), r.m() == Map::<int, (K, V)>::empty(), // [C08]
//@end

//@fn src/hashmap.rs | impl<K, V> TryHashMap<K, V> where K: Eq + Hash, | with_capacity | C03 C08
    ensures
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.m() == Map::<int, (K, V)>::empty(), // [C08]
        r is Ok ==> r->Ok_0.inner.left() >= capacity, // [C08]
//@end

//@fn src/hashmap.rs | impl<K, V> TryHashMap<K, V> where K: Eq + Hash, | get | C08
//@  sig /where.*$/ =>
    requires self.wf(),
    ensures r is Some == self.m().dom().contains(qclass(k)), r is Some ==> *r->0 == self.m()[qclass(k)].1, // [C08]
//@end

//@fn src/hashmap.rs | impl<K, V> TryHashMap<K, V> where K: Eq + Hash, | insert | C03 C08
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Ok && old(self).m().dom().contains(class(k)) ==> r->Ok_0 == Some(old(self).m()[class(k)].1) && final(self).m() == old(self).m().insert(class(k), (old(self).m()[class(k)].0, v)), // [C08]
        r is Ok && !old(self).m().dom().contains(class(k)) ==> r->Ok_0 is None && final(self).m() == old(self).m().insert(class(k), (k, v)), // [C08]
        r is Err ==> final(self).m() == old(self).m(), // [C08]
        old(self).inner.left() >= 1 ==> r is Ok && final(self).inner.reqs() == old(self).inner.reqs() && final(self).inner.left() + 1 >= old(self).inner.left(), // [C08]
//@end

//@fn src/hashmap.rs | impl<K: Debug, V: Debug> Debug for TryHashMap<K, V> | fmt | C20
//@  sig /core::fmt::/ => fmt::
    requires self.wf(),
    ensures exists|s: Seq<(K, V)>| lists(s, self.m()) && (*final(f), r) == #[trigger] fmt::map_shown(*old(f), s), // [C20]
//@end
//@fn src/hashmap.rs | impl<K, V> TryHashMap<K, V> where K: Eq + Hash, | iter | C08
    requires self.wf(),
    ensures r.entries() == self.m(), // [C08]
//@end

//@fn src/hashmap.rs | impl<K, V> TryHashMap<K, V> where K: Eq + Hash, | len | C08
    requires self.wf(),
    ensures r == self.m().len(), // [C08]
//@end

//@fn src/hashmap.rs | impl<K, V> TryHashMap<K, V> where K: Eq + Hash, | remove | C08
//@  sig /where.*$/ =>
    requires old(self).wf(),
    ensures r is Some == old(self).m().dom().contains(qclass(k)), r is Some ==> r->0 == old(self).m()[qclass(k)].1, // [C08]
        final(self).m() == old(self).m().remove(qclass(k)), // [C08]
        final(self).wf(),
//@end

//@fn src/hashmap.rs | impl<K, V> TryHashMap<K, V> where K: Eq + Hash, | reserve | C03 C08
    requires old(self).wf(),
    ensures final(self).wf(), final(self).m() == old(self).m(), // [C08]
        r is Ok ==> final(self).inner.left() >= additional, // [C08 C03]
        old(self).inner.left() >= additional ==> r is Ok && final(self).inner.left() == old(self).inner.left() && final(self).inner.reqs() == old(self).inner.reqs(), // [C08]
        r is Err ==> final(self).inner.left() == old(self).inner.left(),
//@end

//@fn src/hashmap.rs | impl<K, V> IntoIterator for TryHashMap<K, V> | into_iter | C08
//@  sig /Self::IntoIter/ => IntoIter<K, V>
    requires self.wf(),
    ensures r.entries() == self.m(), // [C08]
//@end
}

/// `c` holds a clone of every entry of `m`, and nothing else.
pub open spec fn cloned<K: TryClone, V: TryClone>(m: Map<int, (K, V)>, c: Map<int, (K, V)>) -> bool {
    c.dom() =~= m.dom() && forall|x: int| #[trigger] m.dom().contains(x) ==> m[x].0.is_clone(c[x].0) && m[x].1.is_clone(c[x].1)
}
impl<K: TryClone, V: TryClone> TryHashMap<K, V> {
//@fn src/hashmap.rs | impl<K, V> TryClone for TryHashMap<K, V> where K: Eq + Hash + TryClone, V: TryClone, | try_clone | C03 C06 C08
    requires self.wf(), forall|a: K, b: K| #[trigger] a.is_clone(b) ==> class(a) == class(b),
    ensures r is Ok ==> r->Ok_0.wf() && cloned(self.m(), r->Ok_0.m()), // [C06 C08]
//@loop 0
    invariant
        self.wf(), clone.wf(), vx_src1.entries().dom().finite(),
        forall|a: K, b: K| #[trigger] a.is_clone(b) ==> class(a) == class(b),
        vx_src1.entries().dom().disjoint(clone.m().dom()),
        vx_src1.entries().dom().union(clone.m().dom()) =~= self.m().dom(),
        forall|x: int| #[trigger] vx_src1.entries().dom().contains(x) ==> vx_src1.entries()[x] == self.m()[x],
        forall|x: int| #[trigger] clone.m().dom().contains(x) ==> self.m()[x].0.is_clone(clone.m()[x].0) && self.m()[x].1.is_clone(clone.m()[x].1),
    ensures vx_src1.entries() =~= Map::<int, (K, V)>::empty(),
    decreases vx_src1.entries().len(),
//@end
}

/// Room for n: n insertions of any keys, one after the other, make no allocation request and cannot fail.
pub fn lemma_n_inserts<K, V>(map: &mut TryHashMap<K, V>, ks: &mut VxKeys<K, V>, n: usize) // a client of the contracts, not code of the crate
    requires old(map).wf(), old(map).inner.left() >= n,
    ensures final(map).inner.reqs() == old(map).inner.reqs(), // [C08]
{
    let mut i: usize = 0;
    while i < n
        invariant map.wf(), i <= n, map.inner.left() + i >= n, map.inner.reqs() == old(map).inner.reqs(),
        decreases n - i,
    {
        let (k, v) = ks.next();
        let r = map.insert(k, v);
        assert(r is Ok);
        i += 1;
    }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VxKeys<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K, V> VxKeys<K, V> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: (K, V)) { unimplemented!() }
}
fn main() {}
}
