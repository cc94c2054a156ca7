// Operations of the map that are built on its other operations (src/btree/map.rs): merging, append, the entry API,
// comparison, hashing and printing; over the contracts of the map.
use vstd::prelude::*;
use core::cmp::Ordering;
use core::borrow::Borrow;
use core::ops::RangeBounds;
verus! {
global size_of usize == 8;
/// memory is finite: the entries of two maps are all in it
pub axiom fn axiom_both<K, V>(a: &BTreeMap<K, V>, b: &BTreeMap<K, V>)
    requires a.ok(), b.ok(),
    ensures a.s().len() + b.s().len() <= usize::MAX,
;
//@seam map_model.rsi
//@prove /impl<K: Ord, V> BTreeMap<K, V> \{.*?pub fn append\b/
    proof { super::axiom_both(&*self, &*other); }
    self.append_(other)
//@endseam

// ---- filling a map from an iterator ----
/// an iterator that yields finitely many items
pub trait Src<T>: Sized {
    spec fn left(&self) -> Seq<T>;
    fn next(&mut self) -> (r: Option<T>)
        ensures first(old(self).left(), r, final(self).left()),
    ;
    fn into_iter(self) -> (r: Self) ensures r == self;
}
/// infallible by its signature: panics when memory is exhausted
#[verifier::external_body]
pub fn vx_expect<T>(r: Result<T, TryReserveError>) -> (x: T) ensures r == Ok::<T, TryReserveError>(x) { unimplemented!() }
/// what the references of s refer to
pub open spec fn unref<'a, K, V>(s: Seq<(&'a K, &'a V)>) -> Seq<(K, V)> { Seq::new(s.len(), |i: int| (*s[i].0, *s[i].1)) }
/// an iterator over references, as one over copies of what they refer to
pub struct Copies<I> { pub it: I }
pub fn vx_copied<I>(it: I) -> (r: Copies<I>) ensures r.it == it { Copies { it } }
impl<'a, K: 'a + Copy, V: 'a + Copy, I: Src<(&'a K, &'a V)>> Src<(K, V)> for Copies<I> {
    open spec fn left(&self) -> Seq<(K, V)> { unref(self.it.left()) }
    fn next(&mut self) -> (r: Option<(K, V)>) {
        let ghost l = self.it.left();
        let r = self.it.next();
        proof { assert(unref(l).len() > 0 ==> unref(l.drop_first()) =~= unref(l).drop_first()); }
        match r { None => None, Some(x) => Some((*x.0, *x.1)) }
    }
    fn into_iter(self) -> (r: Self) { self }
}
/// e put into the entries s: as the value of the entry with its key, or as a new entry where it belongs
pub open spec fn put<K, V>(s: Seq<(K, V)>, e: (K, V)) -> Seq<(K, V)> {
    if holds(s, krank(e.0)) { let i = choose|i: int| #[trigger] at(s, krank(e.0), i); s.update(i, (s[i].0, e.1)) }
    else { let i = choose|i: int| #[trigger] splits(s, krank(e.0), i); s.insert(i, e) }
}
/// all of l put into s, one after the other
pub open spec fn poured<K, V>(s: Seq<(K, V)>, l: Seq<(K, V)>) -> Seq<(K, V)>
    decreases l.len(),
{ if l.len() == 0 { s } else { poured(put(s, l[0]), l.drop_first()) } }
pub proof fn lemma_put<K, V>(s: Seq<(K, V)>, s2: Seq<(K, V)>, e: (K, V))
    requires sorted(s),
        holds(s, krank(e.0)) ==> exists|i: int| #[trigger] at(s, krank(e.0), i) && s2 == s.update(i, (s[i].0, e.1)),
        !holds(s, krank(e.0)) ==> exists|i: int| #[trigger] splits(s, krank(e.0), i) && s2 == s.insert(i, e),
    ensures s2 == put(s, e),
{
    let q = krank(e.0);
    if holds(s, q) {
        let i = choose|i: int| #[trigger] at(s, q, i) && s2 == s.update(i, (s[i].0, e.1)); let j = choose|j: int| #[trigger] at(s, q, j);
        if i < j { assert(krank(s[i].0) < krank(s[j].0)); } else if j < i { assert(krank(s[j].0) < krank(s[i].0)); }
    } else {
        let i = choose|i: int| #[trigger] splits(s, q, i) && s2 == s.insert(i, e); let j = choose|j: int| #[trigger] splits(s, q, j);
        if i < j { assert(krank(s[i].0) < q); } else if j < i { assert(krank(s[j].0) < q); }
    }
}
// ---- merging two maps ----
/// core::iter::Peekable over a map's entries
#[verifier::external_body]
#[verifier::accept_recursive_types(I)]
pub struct Peekable<I> { p: core::marker::PhantomData<I> }
impl<K, V> Peekable<MapIntoIter<K, V>> {
    pub uninterp spec fn rest(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&(K, V)>)
        ensures final(self).rest() == old(self).rest(), match r { Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0], None => old(self).rest().len() == 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(K, V)>) ensures first(old(self).rest(), r, final(self).rest()) { unimplemented!() }
}
impl<K, V> MapIntoIter<K, V> {
    #[verifier::external_body]
    pub fn peekable(self) -> (r: Peekable<Self>) ensures r.rest() == self.rest() { unimplemented!() }
}
//@type src/btree/map.rs | struct MergeIter<K, V, I: Iterator<Item = (K, V)>> { left: Peekable<I>, right: Peekable<I>, } => pub struct MergeIter<I> { pub left: Peekable<I>, pub right: Peekable<I> }
pub open spec fn cons<T>(x: T, s: Seq<T>) -> Seq<T> { seq![x] + s }
/// both in order of their keys; for equal keys the entry of b
pub open spec fn merged<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>) -> Seq<(K, V)>
    decreases a.len() + b.len(),
{
    if a.len() == 0 { b } else if b.len() == 0 { a }
    else if krank(a[0].0) < krank(b[0].0) { cons(a[0], merged(a.drop_first(), b)) }
    else if krank(b[0].0) < krank(a[0].0) { cons(b[0], merged(a, b.drop_first())) }
    else { cons(b[0], merged(a.drop_first(), b.drop_first())) }
}
pub proof fn lemma_cons<T>(x: T, s: Seq<T>)
    ensures cons(x, s)[0] == x, cons(x, s).drop_first() == s, forall|y: T| #[trigger] cons(x, s).contains(y) <==> y == x || s.contains(y),
{
    let c = cons(x, s);
    assert(c.drop_first() =~= s);
    assert forall|y: T| #[trigger] c.contains(y) <==> y == x || s.contains(y) by { lemma_first(c, y); }
}
pub proof fn lemma_first<T>(s: Seq<T>, x: T)
    requires s.len() > 0,
    ensures s.contains(x) <==> s[0] == x || s.drop_first().contains(x),
{
    let d = s.drop_first();
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > 0 { assert(d[i - 1] == x); } }
    if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i + 1] == x); }
}
pub proof fn lemma_sorted_first<K, V>(s: Seq<(K, V)>)
    requires sorted(s), s.len() > 0,
    ensures sorted(s.drop_first()),
        forall|e: (K, V)| #![trigger s.contains(e)] s.contains(e) <==> s[0] == e || s.drop_first().contains(e),
        forall|e: (K, V)| #[trigger] s.drop_first().contains(e) ==> krank(s[0].0) < krank(e.0),
        forall|q: int| #[trigger] holds(s, q) <==> krank(s[0].0) == q || holds(s.drop_first(), q),
        forall|q: int| #[trigger] holds(s.drop_first(), q) ==> krank(s[0].0) < q,
{
    let d = s.drop_first();
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies krank((#[trigger] d[i]).0) < krank((#[trigger] d[j]).0) by { assert(d[i] == s[i + 1] && d[j] == s[j + 1]); }
    assert forall|e: (K, V)| #![trigger s.contains(e)] s.contains(e) <==> s[0] == e || d.contains(e) by { lemma_first(s, e); }
    assert forall|e: (K, V)| #[trigger] d.contains(e) implies krank(s[0].0) < krank(e.0) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == e; assert(d[i] == s[i + 1]); }
    assert forall|q: int| #[trigger] holds(d, q) implies krank(s[0].0) < q by { let i = choose|i: int| #[trigger] at(d, q, i); assert(d[i] == s[i + 1]); }
    assert forall|q: int| #[trigger] holds(s, q) <==> krank(s[0].0) == q || holds(d, q) by {
        if holds(s, q) { let i = choose|i: int| #[trigger] at(s, q, i); if i > 0 { assert(d[i - 1] == s[i]); assert(at(d, q, i - 1)); } }
        if holds(d, q) { let i = choose|i: int| #[trigger] at(d, q, i); assert(d[i] == s[i + 1]); assert(at(s, q, i + 1)); }
        if krank(s[0].0) == q { assert(at(s, q, 0)); }
    }
}
pub proof fn lemma_none<K, V>(s: Seq<(K, V)>)
    requires s.len() == 0,
    ensures forall|q: int| !#[trigger] holds(s, q), forall|e: (K, V)| !#[trigger] s.contains(e),
{ }
pub proof fn lemma_sorted_cons<K, V>(x: (K, V), s: Seq<(K, V)>)
    requires sorted(s), forall|e: (K, V)| #[trigger] s.contains(e) ==> krank(x.0) < krank(e.0),
    ensures sorted(cons(x, s)),
{
    let c = cons(x, s);
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies krank((#[trigger] c[i]).0) < krank((#[trigger] c[j]).0) by { assert(c[j] == s[j - 1]); assert(s.contains(s[j - 1])); if i > 0 { assert(c[i] == s[i - 1]); } }
}
/// merged is what append promises
pub proof fn lemma_merged<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires sorted(a), sorted(b),
    ensures joined(a, b, merged(a, b)), merged(a, b).len() <= a.len() + b.len(),
    decreases a.len() + b.len(),
{
    if a.len() == 0 { lemma_none(a); }
    else if b.len() == 0 { lemma_none(b); }
    else {
        lemma_sorted_first(a); lemma_sorted_first(b);
        let (x, r) = if krank(a[0].0) < krank(b[0].0) { lemma_merged(a.drop_first(), b); (a[0], merged(a.drop_first(), b)) }
            else if krank(b[0].0) < krank(a[0].0) { lemma_merged(a, b.drop_first()); (b[0], merged(a, b.drop_first())) }
            else { lemma_merged(a.drop_first(), b.drop_first()); (b[0], merged(a.drop_first(), b.drop_first())) };
        lemma_cons(x, r);
        assert forall|e: (K, V)| #[trigger] r.contains(e) implies krank(x.0) < krank(e.0) by { }
        lemma_sorted_cons(x, r);
    }
}
pub proof fn lemma_merged_step<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires sorted(a), sorted(b),
    ensures a.len() > 0 ==> sorted(a.drop_first()), b.len() > 0 ==> sorted(b.drop_first()),
        a.len() > 0 && (b.len() == 0 || krank(a[0].0) < krank(b[0].0)) ==> merged(a, b)[0] == a[0] && merged(a, b).drop_first() == merged(a.drop_first(), b),
        b.len() > 0 && (a.len() == 0 || krank(b[0].0) < krank(a[0].0)) ==> merged(a, b)[0] == b[0] && merged(a, b).drop_first() == merged(a, b.drop_first()),
        a.len() > 0 && b.len() > 0 && krank(a[0].0) == krank(b[0].0) ==> merged(a, b)[0] == b[0] && merged(a, b).drop_first() == merged(a.drop_first(), b.drop_first()),
{
    if a.len() > 0 { lemma_sorted_first(a); } if b.len() > 0 { lemma_sorted_first(b); }
    if a.len() > 0 && b.len() > 0 { lemma_cons(a[0], merged(a.drop_first(), b)); lemma_cons(b[0], merged(a, b.drop_first())); lemma_cons(b[0], merged(a.drop_first(), b.drop_first())); }
}
impl<K, V> MergeIter<MapIntoIter<K, V>> {
    pub open spec fn ok(&self) -> bool { sorted(self.left.rest()) && sorted(self.right.rest()) }
    pub open spec fn rest(&self) -> Seq<(K, V)> { merged(self.left.rest(), self.right.rest()) }
//@fn src/btree/map.rs | impl<K: Ord, V, I: Iterator<Item = (K, V)>> Iterator for MergeIter<K, V, I> | next | C15
//@  rw /Some\(&\(ref (\w+), _\)\)/ => Some((\1, _))
//@  rw /(\w+)\.cmp\((\w+)\)/ => vx_cmp(\1, \2)
    requires old(self).ok(),
    ensures final(self).ok(), first(old(self).rest(), r, final(self).rest()),
//@body
    proof { lemma_merged_step(old(self).left.rest(), old(self).right.rest()); }
//@end
}
impl<K: Ord, V> Feed<(K, V)> for MergeIter<MapIntoIter<K, V>> {
    open spec fn good(&self) -> bool { self.ok() }
    open spec fn feed(&self) -> Seq<(K, V)> { self.rest() }
    fn next(&mut self) -> (r: Option<(K, V)>) { self.next() }
}
mod mem {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace<T>(a: &mut T, b: T) -> (r: T) ensures *final(a) == b, r == *old(a) { unimplemented!() }
}
impl<K: Ord, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | append | C15
//@  as append_
    requires old(self).ok(), old(other).ok(), old(self).s().len() + old(other).s().len() <= usize::MAX, // both are in memory
    ensures final(self).ok(), final(other).ok(), final(other).s().len() == 0, joined(old(self).s(), old(other).s(), final(self).s()),
//@body
    proof { lemma_merged(old(self).s(), old(other).s()); lemma_none(Seq::<(K, V)>::empty()); }
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> Extend<(K, V)> for BTreeMap<K, V> | extend | C11 C19
//@  sig /IntoIterator<Item = \(K, V\)>/ => Src<(K, V)>
//@  rw /self\.try_insert\(k, v\)\.expect\("[^"]*"\)/ => vx_expect(self.try_insert(k, v))
    requires old(self).ok(),
    ensures final(self).ok(), final(self).s() == poured(old(self).s(), iter.left()),
//@body
    let ghost all = iter.left(); let ghost mut l0 = all;
//@loop 0
    invariant self.ok(), l0 == vx_src1.left(), poured(self.s(), l0) == poured(old(self).s(), all),
    ensures vx_src1.left().len() == 0,
    decreases vx_src1.left().len(),
//@at /vx_expect/
 let ghost me = *self; let ghost prev = l0; let ghost e = (k, v); proof { l0 = vx_src1.left(); }
//@after /vx_expect\(self\.try_insert\(k, v\)\);/
 proof { lemma_put(me.s(), self.s(), e); assert(l0 == prev.drop_first() && prev[0] == e); }
//@end
}
impl<'a, K: 'a + Ord + Copy, V: 'a + Copy> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<'a, K: Ord + Copy, V: Copy> Extend<(&'a K, &'a V)> for BTreeMap<K, V> | extend | C11 C19
//@  as extend_refs
//@  sig /extend<I: IntoIterator<Item = \(&'a K, &'a V\)>>/ => extend<I: Src<(&'a K, &'a V)>>
//@  rw /iter\.into_iter\(\)\.map\(\|\(&key, &value\)\| \(key, value\)\)/ => vx_copied(iter.into_iter())
    requires old(self).ok(),
    ensures final(self).ok(), final(self).s() == poured(old(self).s(), unref(iter.left())),
//@end
}
impl<K: Ord, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: Ord, V> FromIterator<(K, V)> for BTreeMap<K, V> | from_iter | C11 C19
//@  sig /IntoIterator<Item = \(K, V\)>/ => Src<(K, V)>
    ensures r.ok(), r.s() == poured(Seq::<(K, V)>::empty(), iter.left()),
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> Default for BTreeMap<K, V> | default | C11
    ensures r.ok(), r.s() == Seq::<(K, V)>::empty(),
//@end
//@fn src/btree/map.rs | impl<K: Ord, Q: ?Sized, V> Index<&Q> for BTreeMap<K, V> where K: Borrow<Q>, Q: Ord, | index | C11
//@  sig /fn index\(/ => fn index<Q: ?Sized + Ord>(
//@  sig /-> &V/ => -> &V where K: Borrow<Q>
//@  rw /(self\.get\(\w+\))\.expect\("[^"]*"\)/ => vx_or_panic(\1)
    requires self.ok(),
    ensures exists|i: int| #[trigger] at(self.s(), qrank(key), i) && *r == self.s()[i].1,
//@end
}
/// panics on None
#[verifier::external_body]
pub fn vx_or_panic<T>(r: Option<T>) -> (x: T) ensures r == Some(x) { unimplemented!() }

// ---- comparing, hashing and printing ----
pub uninterp spec fn eqv<T>(a: T, b: T) -> bool;
#[verifier::external_body]
pub fn vx_eq2<K, V>(a: (&K, &V), b: (&K, &V)) -> (r: bool) ensures r == (eqv(*a.0, *b.0) && eqv(*a.1, *b.1)) { unimplemented!() }
pub open spec fn alike<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> eqv((#[trigger] a[i]).0, b[i].0) && eqv(a[i].1, b[i].1)
}
pub struct Zip<'a, K, V> { pub a: MapIter<'a, K, V>, pub b: MapIter<'a, K, V> }
pub trait Walk<'a, K, V> {
    spec fn good(&self) -> bool;
    spec fn walk(&self) -> Seq<(K, V)>;
    fn vx_iter(self) -> (r: MapIter<'a, K, V>) requires self.good() ensures r.rest() == self.walk();
}
impl<'a, K, V> Walk<'a, K, V> for &'a BTreeMap<K, V> {
    open spec fn good(&self) -> bool { self.ok() }
    open spec fn walk(&self) -> Seq<(K, V)> { self.s() }
    fn vx_iter(self) -> (r: MapIter<'a, K, V>) { self.iter() }
}
impl<'a, K, V> Walk<'a, K, V> for MapIter<'a, K, V> {
    open spec fn good(&self) -> bool { true }
    open spec fn walk(&self) -> Seq<(K, V)> { self.rest() }
    fn vx_iter(self) -> (r: MapIter<'a, K, V>) { self }
}
pub open spec fn smaller(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
impl<'a, K, V> Zip<'a, K, V> {
    pub open spec fn left(&self) -> nat { smaller(self.a.rest().len(), self.b.rest().len()) }
    pub fn next(&mut self) -> (r: Option<((&'a K, &'a V), (&'a K, &'a V))>)
        ensures match r {
            Some(x) => first(old(self).a.rest(), copied2(Some(x.0)), final(self).a.rest()) && first(old(self).b.rest(), copied2(Some(x.1)), final(self).b.rest()),
            None => old(self).left() == 0 && final(self).left() == 0 && (old(self).a.rest().len() == old(self).b.rest().len() ==> final(self).a.rest() == old(self).a.rest() && final(self).b.rest() == old(self).b.rest()),
        },
    { match self.a.next() { None => None, Some(x) => match self.b.next() { None => None, Some(y) => Some((x, y)) } } }
}
pub uninterp spec fn partial_order<T>(a: T, b: T) -> Option<Ordering>;
pub uninterp spec fn total_order<T>(a: T, b: T) -> Ordering;
pub open spec fn lex_partial<T>(a: Seq<T>, b: Seq<T>) -> Option<Ordering>
    decreases a.len(),
{
    if a.len() == 0 { if b.len() == 0 { Some(Ordering::Equal) } else { Some(Ordering::Less) } } else if b.len() == 0 { Some(Ordering::Greater) }
    else { let c = partial_order(a[0], b[0]); if c == Some(Ordering::Equal) { lex_partial(a.drop_first(), b.drop_first()) } else { c } }
}
pub open spec fn lex<T>(a: Seq<T>, b: Seq<T>) -> Ordering
    decreases a.len(),
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } } else if b.len() == 0 { Ordering::Greater }
    else { let c = total_order(a[0], b[0]); if c is Equal { lex(a.drop_first(), b.drop_first()) } else { c } }
}
impl<'a, K, V> MapIter<'a, K, V> {
    pub fn zip<W: Walk<'a, K, V>>(self, o: W) -> (r: Zip<'a, K, V>) requires o.good() ensures r.a == self, r.b.rest() == o.walk() { Zip { a: self, b: o.vx_iter() } }
    /// Iterator::partial_cmp
    #[verifier::external_body]
    pub fn partial_cmp<W: Walk<'a, K, V>>(self, o: W) -> (r: Option<Ordering>) requires o.good() ensures r == lex_partial(self.rest(), o.walk()) { unimplemented!() }
    /// Iterator::cmp
    #[verifier::external_body]
    pub fn cmp<W: Walk<'a, K, V>>(self, o: W) -> (r: Ordering) requires o.good() ensures r == lex(self.rest(), o.walk()) { unimplemented!() }
}
/// what a hasher becomes when an entry is fed to it
pub uninterp spec fn fed<H, K, V>(h: H, e: (K, V)) -> H;
#[verifier::external_body]
pub fn vx_hash<H, K, V>(e: (&K, &V), h: &mut H) ensures *final(h) == fed(*old(h), (*e.0, *e.1)) { unimplemented!() }
pub open spec fn fed_all<H, K, V>(h: H, s: Seq<(K, V)>) -> H
    decreases s.len(),
{ if s.len() == 0 { h } else { fed_all(fed(h, s[0]), s.drop_first()) } }
//@include fmt_model.rsi
impl<'a, K, V> fmt::DebugList<'a, (K, V)> {
    #[verifier::external_body]
    pub fn entries<'b, W: Walk<'b, K, V>>(self, it: W) -> (r: Self) requires it.good() ensures r.kind() == self.kind(), r.before() == self.before(), r.after() == self.after(), r.items() == self.items() + it.walk() { unimplemented!() }
}
impl<K, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: PartialEq, V: PartialEq> PartialEq for BTreeMap<K, V> | eq | C20
//@  rw /\b(\w+) == (\w+)(?=\s*\))/ => vx_eq2(\1, \2)
    requires self.ok(), other.ok(),
    ensures r == alike(self.s(), other.s()),
//@loop 0
    invariant_except_break vx_all,
        forall|i: int| 0 <= i < self.s().len() - vx_src1.a.rest().len() ==> eqv((#[trigger] self.s()[i]).0, other.s()[i].0) && eqv(self.s()[i].1, other.s()[i].1),
    invariant self.s().len() == other.s().len(), vx_src1.a.rest().len() == vx_src1.b.rest().len(), vx_src1.a.rest().len() <= self.s().len(),
        vx_src1.a.rest() == self.s().skip(self.s().len() - vx_src1.a.rest().len()), vx_src1.b.rest() == other.s().skip(self.s().len() - vx_src1.a.rest().len()),
    ensures vx_all == alike(self.s(), other.s()),
    decreases vx_src1.a.rest().len(),
//@end
//@fn src/btree/map.rs | impl<K: PartialOrd, V: PartialOrd> PartialOrd for BTreeMap<K, V> | partial_cmp | C20
    requires self.ok(), other.ok(),
    ensures r == lex_partial(self.s(), other.s()),
//@end
//@fn src/btree/map.rs | impl<K: Ord, V: Ord> Ord for BTreeMap<K, V> | cmp | C20
    requires self.ok(), other.ok(),
    ensures r == lex(self.s(), other.s()),
//@end
//@fn src/btree/map.rs | impl<K: Hash, V: Hash> Hash for BTreeMap<K, V> | hash | C20
//@  sig /<H: Hasher>/ => <H>
//@  rw /\bin self\b/ => in self.iter()
//@  rw /(\w+)\.hash\(state\)/ => vx_hash(\1, state)
    requires self.ok(),
    ensures *final(state) == fed_all(*old(state), self.s()),
//@loop 0
    invariant fed_all(*old(state), self.s()) == fed_all(*state, vx_src1.rest()),
    ensures vx_src1.rest().len() == 0,
    decreases vx_src1.rest().len(),
//@end
//@fn src/btree/map.rs | impl<K: Debug, V: Debug> Debug for BTreeMap<K, V> | fmt | C20
    requires self.ok(),
    ensures (*final(f), r) == fmt::map_shown(*old(f), self.s()),
//@body
    proof { assert(Seq::<(K, V)>::empty() + self.s() =~= self.s()); }
//@end
}

// ---- what the derive attributes of BTreeSet stand for ----
//@type src/btree/set.rs | pub struct BTreeSet<T> { map: BTreeMap<T, ()>, } => pub struct BTreeSet<T> { pub map: BTreeMap<T, ()> }
impl<T> BTreeSet<T> {
//@fn src/btree/set.rs | impl<T: PartialEq> PartialEq for BTreeSet<T> | eq | C20
//@  rw /self\.map == other\.map/ => self.map.eq(&other.map)
    requires self.map.ok(), other.map.ok(),
    ensures r == alike(self.map.s(), other.map.s()),
//@end
//@fn src/btree/set.rs | impl<T: PartialOrd> PartialOrd for BTreeSet<T> | partial_cmp | C20
//@  rw /PartialOrd::partial_cmp\(&self\.map, &other\.map\)/ => self.map.partial_cmp(&other.map)
    requires self.map.ok(), other.map.ok(),
    ensures r == lex_partial(self.map.s(), other.map.s()),
//@end
//@fn src/btree/set.rs | impl<T: Ord> Ord for BTreeSet<T> | cmp | C20
//@  rw /Ord::cmp\(&self\.map, &other\.map\)/ => self.map.cmp(&other.map)
    requires self.map.ok(), other.map.ok(),
    ensures r == lex(self.map.s(), other.map.s()),
//@end
//@fn src/btree/set.rs | impl<T: Hash> Hash for BTreeSet<T> | hash | C20
//@  sig /<__H: Hasher>/ => <__H>
//@  rw /Hash::hash\(&self\.map, state\)/ => self.map.hash(state)
    requires self.map.ok(),
    ensures *final(state) == fed_all(*old(state), self.map.s()),
//@end
}

//@include entry_model.rsi
impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> {
//@fn src/btree/map.rs | impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> | insert | C19
    requires old(self).ok(),
    ensures r == old(self).now()[old(self).i()].1, final(self).ok(), final(self).now() == old(self).with(value), final(self).i() == old(self).i(), final(self).fin() == old(self).fin(), final(self).kept() == old(self).kept(),
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> | remove | C17 C19
    requires self.ok(),
    ensures r == self.now()[self.i()].1, self.fin() == self.now().remove(self.i()), self.kept(),
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> | remove_entry | C17 C19
    requires self.ok(),
    ensures r == self.now()[self.i()], self.fin() == self.now().remove(self.i()), self.kept(),
//@end
}
impl<'a, K, V> VacantEntry<'a, K, V> {
//@fn src/btree/map.rs | impl<'a, K: Ord, V> VacantEntry<'a, K, V> | key | C19
    ensures *r == self.key,
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> VacantEntry<'a, K, V> | into_key | C19
    ensures r == self.key,
//@end
}
//@type src/btree/map.rs | pub enum Entry<'a, K: 'a, V: 'a> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>), } => pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
use Entry::*;
impl<'a, K, V> Entry<'a, K, V> {
    #[verifier::prophetic]
    pub open spec fn kept(&self) -> bool { match self { Occupied(e) => e.kept(), Vacant(e) => e.kept() } }
    pub open spec fn ok(&self) -> bool { match self { Occupied(e) => e.ok(), Vacant(e) => e.ok() } }
    /// a reference to the value of the entry, which holds v first and its final value in the end
    #[verifier::prophetic]
    pub open spec fn yields(&self, x: &mut V, v: V) -> bool {
        match self {
            Occupied(e) => *x == e.now()[e.i()].1 && e.fin() == e.with(*final(x)) && e.kept(),
            Vacant(e) => *x == v && e.kept() && exists|i: int| #[trigger] splits(e.now(), krank(e.key), i) && e.fin() == e.now().insert(i, (e.key, *final(x))),
        }
    }
    /// out of memory: only possible when vacant, and nothing has changed
    #[verifier::prophetic]
    pub open spec fn refused(&self) -> bool { match self { Occupied(e) => false, Vacant(e) => e.fin() == e.now() && e.kept() } }
}
impl<'a, K: Ord, V> Entry<'a, K, V> {
//@fn src/btree/map.rs | impl<'a, K: Ord, V> Entry<'a, K, V> | or_try_insert | C16 C19
    requires self.ok(),
    ensures match r { Ok(x) => self.yields(x, default), Err(_) => self.refused() },
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> Entry<'a, K, V> | or_try_insert_with | C16 C19
    requires self.ok(), self is Vacant ==> default.requires(()),
    ensures match r { Ok(x) => if self is Vacant { exists|v: V| #[trigger] default.ensures((), v) && self.yields(x, v) } else { forall|v: V| self.yields(x, v) }, Err(_) => self.refused() },
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> Entry<'a, K, V> | key | C19
//@  rw /\bref (\w+)/ => \1
//@  rw /\*self\b/ => self
    requires self.ok(),
    ensures match self { Occupied(e) => *r == e.now()[e.i()].0, Vacant(e) => *r == e.key },
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> Entry<'a, K, V> | and_modify | C19
//@  sig /FnOnce\(&mut V\)/ => FnOnce(&mut V)
    requires self.ok(), self matches Occupied(e) ==> forall|x: &mut V| *x == e.now()[e.i()].1 ==> #[trigger] f.requires((x,)),
    ensures match self {
        Occupied(e) => r matches Occupied(e2) && e2.ok() && e2.i() == e.i() && e2.fin() == e.fin() && e2.kept() == e.kept() && exists|x: &mut V| *x == e.now()[e.i()].1 && #[trigger] f.ensures((x,), ()) && e2.now() == e.with(*final(x)),
        Vacant(e) => r == self,
    },
//@end
}
//@fn src/btree/map.rs | impl<'a, K: Ord, V: Default> Entry<'a, K, V> | or_default | C16 C19
//@  sig /fn or_default\(self\)/ => fn or_default<'a, K: Ord, V>(vx_entry: Entry<'a, K, V>)
//@  rw /\bself\b/ => vx_entry
//@  rw /Default::default\(\)/ => vx_default()
    requires vx_entry.ok(),
    ensures match r { Ok(x) => if vx_entry is Vacant { exists|v: V| #[trigger] is_default(v) && vx_entry.yields(x, v) } else { forall|v: V| vx_entry.yields(x, v) }, Err(_) => vx_entry.refused() },
//@end
pub uninterp spec fn is_default<V>(v: V) -> bool;
#[verifier::external_body]
pub fn vx_default<V>() -> (r: V) ensures is_default(r) { unimplemented!() }
}
fn main() {}
