// The set (src/btree/set.rs), over the contracts of the map.
use vstd::prelude::*;
use core::cmp::Ordering;
use core::cmp::Ordering::{Equal, Greater, Less};
use core::borrow::Borrow;
use core::ops::RangeBounds;
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { b } else { a }) { unimplemented!() }
#[verifier::external_body]
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { unimplemented!() }
//@include map_model.rsi
//@type src/btree/set.rs | pub struct BTreeSet<T> { map: BTreeMap<T, ()>, } => pub struct BTreeSet<T> { pub map: BTreeMap<T, ()> }
//@type src/btree/set.rs | pub struct Iter<'a, T: 'a> { iter: Keys<'a, T, ()>, } => pub struct Iter<'a, T> { pub iter: Keys<'a, T, ()> }
//@type src/btree/set.rs | pub struct IntoIter<T> { iter: map::IntoIter<T, ()>, } => pub struct IntoIter<T> { pub iter: MapIntoIter<T, ()> }
//@type src/btree/set.rs | pub struct Range<'a, T: 'a> { iter: map::Range<'a, T, ()>, } => pub struct Range<'a, T> { pub iter: MapRange<'a, T, ()> }
//@type src/btree/set.rs | pub struct Difference<'a, T: 'a> { inner: DifferenceInner<'a, T>, } => pub struct Difference<'a, T> { pub inner: DifferenceInner<'a, T> }
//@type src/btree/set.rs | enum DifferenceInner<'a, T: 'a> { Stitch { self_iter: Iter<'a, T>, other_iter: Peekable<Iter<'a, T>>, }, Search { self_iter: Iter<'a, T>, other_set: &'a BTreeSet<T>, }, } => pub enum DifferenceInner<'a, T> { Stitch { self_iter: Iter<'a, T>, other_iter: Peekable<Iter<'a, T>> }, Search { self_iter: Iter<'a, T>, other_set: &'a BTreeSet<T> } }
//@type src/btree/set.rs | pub struct SymmetricDifference<'a, T: 'a> { a: Peekable<Iter<'a, T>>, b: Peekable<Iter<'a, T>>, } => pub struct SymmetricDifference<'a, T> { pub a: Peekable<Iter<'a, T>>, pub b: Peekable<Iter<'a, T>> }
//@type src/btree/set.rs | pub struct Intersection<'a, T: 'a> { inner: IntersectionInner<'a, T>, } => pub struct Intersection<'a, T> { pub inner: IntersectionInner<'a, T> }
//@type src/btree/set.rs | enum IntersectionInner<'a, T: 'a> { Stitch { small_iter: Iter<'a, T>, other_iter: Iter<'a, T>, }, Search { small_iter: Iter<'a, T>, large_set: &'a BTreeSet<T>, }, } => pub enum IntersectionInner<'a, T> { Stitch { small_iter: Iter<'a, T>, other_iter: Iter<'a, T> }, Search { small_iter: Iter<'a, T>, large_set: &'a BTreeSet<T> } }
//@type src/btree/set.rs | pub struct Union<'a, T: 'a> { a: Peekable<Iter<'a, T>>, b: Peekable<Iter<'a, T>>, } => pub struct Union<'a, T> { pub a: Peekable<Iter<'a, T>>, pub b: Peekable<Iter<'a, T>> }
//@include fmt_model.rsi
impl<'a, T> fmt::DebugList<'a, T> {
    #[verifier::external_body]
    pub fn entries<'b>(self, it: Iter<'b, T>) -> (r: Self) ensures r.kind() == self.kind(), r.before() == self.before(), r.after() == self.after(), r.items() == self.items() + it.rest() { unimplemented!() }
}
//@const src/btree/set.rs | ITER_PERFORMANCE_TIPPING_SIZE_DIFF

/// core::iter::Peekable over a set's iterator
#[verifier::external_body]
#[verifier::accept_recursive_types(I)]
pub struct Peekable<I> { p: core::marker::PhantomData<I> }
impl<'a, T> Peekable<Iter<'a, T>> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&&'a T>)
        ensures final(self).rest() == old(self).rest(), match r { Some(x) => old(self).rest().len() > 0 && **x == old(self).rest()[0], None => old(self).rest().len() == 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>) ensures first(old(self).rest(), copied(r), final(self).rest()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.rest() == self.rest() { unimplemented!() }
}

// ---- sequences of ranks, and the set operations on them ----
pub open spec fn rk<T>(s: Seq<T>) -> Seq<int> { Seq::new(s.len(), |i: int| krank(s[i])) }
pub open spec fn asc(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub open spec fn cons(x: int, s: Seq<int>) -> Seq<int> { seq![x] + s }
pub open spec fn uni(a: Seq<int>, b: Seq<int>) -> Seq<int>
    decreases a.len() + b.len(),
{
    if a.len() == 0 { b } else if b.len() == 0 { a }
    else if a[0] < b[0] { cons(a[0], uni(a.drop_first(), b)) }
    else if b[0] < a[0] { cons(b[0], uni(a, b.drop_first())) }
    else { cons(a[0], uni(a.drop_first(), b.drop_first())) }
}
pub open spec fn sym(a: Seq<int>, b: Seq<int>) -> Seq<int>
    decreases a.len() + b.len(),
{
    if a.len() == 0 { b } else if b.len() == 0 { a }
    else if a[0] < b[0] { cons(a[0], sym(a.drop_first(), b)) }
    else if b[0] < a[0] { cons(b[0], sym(a, b.drop_first())) }
    else { sym(a.drop_first(), b.drop_first()) }
}
pub open spec fn diff(a: Seq<int>, b: Seq<int>) -> Seq<int>
    decreases a.len(),
{
    if a.len() == 0 { a } else if b.contains(a[0]) { diff(a.drop_first(), b) } else { cons(a[0], diff(a.drop_first(), b)) }
}
pub open spec fn inter(a: Seq<int>, b: Seq<int>) -> Seq<int>
    decreases a.len(),
{
    if a.len() == 0 { a } else if b.contains(a[0]) { cons(a[0], inter(a.drop_first(), b)) } else { inter(a.drop_first(), b) }
}
pub open spec fn subset(a: Seq<int>, b: Seq<int>) -> bool { forall|x: int| #[trigger] a.contains(x) ==> b.contains(x) }
pub proof fn lemma_first(s: Seq<int>, x: int)
    requires s.len() > 0,
    ensures s.contains(x) <==> s[0] == x || s.drop_first().contains(x),
{
    let d = s.drop_first();
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > 0 { assert(d[i - 1] == x); } }
    if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i + 1] == x); }
}
pub proof fn lemma_asc_first(s: Seq<int>)
    requires asc(s), s.len() > 0,
    ensures asc(s.drop_first()), forall|x: int| #[trigger] s.drop_first().contains(x) ==> s[0] < x,
{
    let d = s.drop_first();
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] < #[trigger] d[j] by { assert(d[i] == s[i + 1] && d[j] == s[j + 1]); }
    assert forall|x: int| #[trigger] d.contains(x) implies s[0] < x by { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(d[i] == s[i + 1]); }
}
pub proof fn lemma_cons(x: int, s: Seq<int>)
    ensures forall|y: int| #[trigger] cons(x, s).contains(y) <==> y == x || s.contains(y), cons(x, s).len() == s.len() + 1, cons(x, s)[0] == x, cons(x, s).drop_first() =~= s,
        asc(s) && (forall|y: int| #[trigger] s.contains(y) ==> x < y) ==> asc(cons(x, s)),
{
    let c = cons(x, s);
    assert forall|y: int| #[trigger] c.contains(y) <==> y == x || s.contains(y) by {
        lemma_first(c, y); assert(c.drop_first() =~= s);
    }
    if asc(s) && (forall|y: int| #[trigger] s.contains(y) ==> x < y) {
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies #[trigger] c[i] < #[trigger] c[j] by { assert(c[j] == s[j - 1]); assert(s.contains(s[j - 1])); if i > 0 { assert(c[i] == s[i - 1]); } }
    }
}
/// uni is the union: ascending, with exactly the elements of both
pub proof fn lemma_uni(a: Seq<int>, b: Seq<int>)
    requires asc(a), asc(b),
    ensures asc(uni(a, b)), forall|x: int| #[trigger] uni(a, b).contains(x) <==> a.contains(x) || b.contains(x),
        a.len() <= uni(a, b).len() <= a.len() + b.len(), b.len() <= uni(a, b).len(),
    decreases a.len() + b.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_asc_first(a); lemma_asc_first(b);
        assert forall|x: int| true implies (#[trigger] a.contains(x) <==> a[0] == x || a.drop_first().contains(x)) by { lemma_first(a, x); }
        assert forall|x: int| true implies (#[trigger] b.contains(x) <==> b[0] == x || b.drop_first().contains(x)) by { lemma_first(b, x); }
        if a[0] < b[0] { lemma_uni(a.drop_first(), b); lemma_cons(a[0], uni(a.drop_first(), b)); }
        else if b[0] < a[0] { lemma_uni(a, b.drop_first()); lemma_cons(b[0], uni(a, b.drop_first())); }
        else { lemma_uni(a.drop_first(), b.drop_first()); lemma_cons(a[0], uni(a.drop_first(), b.drop_first())); }
    }
}
pub proof fn lemma_sym(a: Seq<int>, b: Seq<int>)
    requires asc(a), asc(b),
    ensures asc(sym(a, b)), forall|x: int| #[trigger] sym(a, b).contains(x) <==> (a.contains(x) != b.contains(x)),
        sym(a, b).len() <= a.len() + b.len(),
    decreases a.len() + b.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_asc_first(a); lemma_asc_first(b);
        assert forall|x: int| true implies (#[trigger] a.contains(x) <==> a[0] == x || a.drop_first().contains(x)) by { lemma_first(a, x); }
        assert forall|x: int| true implies (#[trigger] b.contains(x) <==> b[0] == x || b.drop_first().contains(x)) by { lemma_first(b, x); }
        if a[0] < b[0] { lemma_sym(a.drop_first(), b); lemma_cons(a[0], sym(a.drop_first(), b)); }
        else if b[0] < a[0] { lemma_sym(a, b.drop_first()); lemma_cons(b[0], sym(a, b.drop_first())); }
        else { lemma_sym(a.drop_first(), b.drop_first()); }
    }
}
pub proof fn lemma_diff(a: Seq<int>, b: Seq<int>)
    requires asc(a),
    ensures asc(diff(a, b)), forall|x: int| #[trigger] diff(a, b).contains(x) <==> a.contains(x) && !b.contains(x),
        diff(a, b).len() + inter(a, b).len() == a.len(),
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_asc_first(a);
        assert forall|x: int| true implies (#[trigger] a.contains(x) <==> a[0] == x || a.drop_first().contains(x)) by { lemma_first(a, x); }
        lemma_diff(a.drop_first(), b); lemma_cons(a[0], diff(a.drop_first(), b));
    }
}
pub proof fn lemma_inter(a: Seq<int>, b: Seq<int>)
    requires asc(a),
    ensures asc(inter(a, b)), forall|x: int| #[trigger] inter(a, b).contains(x) <==> a.contains(x) && b.contains(x), inter(a, b).len() <= a.len(),
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_asc_first(a);
        assert forall|x: int| true implies (#[trigger] a.contains(x) <==> a[0] == x || a.drop_first().contains(x)) by { lemma_first(a, x); }
        lemma_inter(a.drop_first(), b); lemma_cons(a[0], inter(a.drop_first(), b));
    }
}
pub open spec fn disjoint(a: Seq<int>, b: Seq<int>) -> bool { forall|x: int| #![trigger a.contains(x)] #![trigger b.contains(x)] !(a.contains(x) && b.contains(x)) }
pub proof fn lemma_disjoint(a: Seq<int>, b: Seq<int>)
    requires asc(a),
    ensures inter(a, b).len() == 0 <==> disjoint(a, b), disjoint(a, b) == disjoint(b, a),
{
    let c = inter(a, b);
    lemma_inter(a, b);
    if c.len() > 0 { assert(c.contains(c[0])); }
    if !disjoint(a, b) { let x = choose|x: int| a.contains(x) && b.contains(x); assert(c.contains(x)); }
}
/// an element that no element of a equals can be left out of b
pub proof fn lemma_skip(a: Seq<int>, b: Seq<int>)
    requires b.len() > 0, !a.contains(b[0]),
    ensures diff(a, b.drop_first()) == diff(a, b), inter(a, b.drop_first()) == inter(a, b),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a.contains(a[0]));
        lemma_first(b, a[0]);
        lemma_first(a, b[0]);
        lemma_skip(a.drop_first(), b);
    }
}
/// a[0] < b[0] <= the rest of b: it is not there
pub proof fn lemma_absent(b: Seq<int>, x: int)
    requires asc(b), b.len() > 0 ==> x < b[0],
    ensures !b.contains(x),
{
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i > 0 { assert(b[0] < b[i]); } }
}
pub proof fn lemma_longer(a: Seq<int>, b: Seq<int>)
    requires asc(a), asc(b), subset(a, b),
    ensures a.len() <= b.len(),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a.contains(a[0]));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a[0];
        let c = b.skip(i + 1);
        lemma_asc_first(a);
        assert forall|x: int, y: int| 0 <= x < y < c.len() implies #[trigger] c[x] < #[trigger] c[y] by { assert(c[x] == b[i + 1 + x] && c[y] == b[i + 1 + y]); }
        assert forall|x: int| #[trigger] a.drop_first().contains(x) implies c.contains(x) by {
            lemma_first(a, x);
            let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
            if j < i { assert(b[j] < b[i]); }
            assert(c[j - i - 1] == x);
        }
        lemma_longer(a.drop_first(), c);
    }
}
pub proof fn lemma_inter_len(a: Seq<int>, b: Seq<int>)
    requires asc(a), asc(b),
    ensures inter(a, b).len() <= b.len(), inter(a, b).len() <= a.len(),
{ lemma_inter(a, b); lemma_longer(inter(a, b), b); }
pub broadcast proof fn lemma_keys_first<K, V>(s: Seq<(K, V)>)
    requires s.len() > 0,
    ensures keys_of(s).drop_first() == #[trigger] keys_of(s.drop_first()), keys_of(s)[0] == s[0].0,
{ assert(keys_of(s).drop_first() =~= keys_of(s.drop_first())); }
pub broadcast proof fn lemma_keys_last<K, V>(s: Seq<(K, V)>)
    requires s.len() > 0,
    ensures keys_of(s).drop_last() == #[trigger] keys_of(s.drop_last()), keys_of(s).last() == s.last().0,
{ assert(keys_of(s).drop_last() =~= keys_of(s.drop_last())); }
pub broadcast proof fn lemma_rk<T>(s: Seq<T>)
    requires s.len() > 0,
    ensures rk(s).drop_first() == #[trigger] rk(s.drop_first()), rk(s)[0] == krank(s[0]), rk(s) == cons(krank(s[0]), rk(s.drop_first())),
{ assert(rk(s).drop_first() =~= rk(s.drop_first())); assert(rk(s) =~= cons(krank(s[0]), rk(s.drop_first()))); }
pub proof fn lemma_diff_step(a: Seq<int>, b: Seq<int>)
    requires asc(a), asc(b), a.len() > 0,
    ensures asc(a.drop_first()), b.len() > 0 ==> asc(b.drop_first()),
        b.len() == 0 || a[0] < b[0] ==> diff(a, b) == cons(a[0], diff(a.drop_first(), b)) && diff(a, b)[0] == a[0] && diff(a, b).drop_first() == diff(a.drop_first(), b),
        b.len() > 0 && b[0] < a[0] ==> diff(a, b) == diff(a, b.drop_first()),
        b.len() > 0 && b[0] == a[0] ==> diff(a, b) == diff(a.drop_first(), b.drop_first()) && diff(a, b) == diff(a.drop_first(), b),
{
    lemma_asc_first(a);
    if b.len() > 0 { lemma_asc_first(b); }
    if b.len() == 0 || a[0] < b[0] { lemma_absent(b, a[0]); lemma_cons(a[0], diff(a.drop_first(), b)); }
    else if b[0] < a[0] { lemma_absent(a, b[0]); lemma_skip(a, b); }
    else { assert(b.contains(b[0])); lemma_skip(a.drop_first(), b); }
}
pub proof fn lemma_inter_step(a: Seq<int>, b: Seq<int>)
    requires asc(a), asc(b), a.len() > 0, b.len() > 0,
    ensures asc(a.drop_first()), asc(b.drop_first()),
        a[0] < b[0] ==> inter(a, b) == inter(a.drop_first(), b),
        b[0] < a[0] ==> inter(a, b) == inter(a, b.drop_first()),
        b[0] == a[0] ==> inter(a, b)[0] == a[0] && inter(a, b).drop_first() == inter(a.drop_first(), b.drop_first()),
{
    lemma_asc_first(a); lemma_asc_first(b);
    if a[0] < b[0] { lemma_absent(b, a[0]); }
    else if b[0] < a[0] { lemma_absent(a, b[0]); lemma_skip(a, b); }
    else { assert(b.contains(b[0])); lemma_skip(a.drop_first(), b); lemma_cons(a[0], inter(a.drop_first(), b)); }
}
pub proof fn lemma_uni_step(a: Seq<int>, b: Seq<int>)
    requires asc(a), asc(b),
    ensures a.len() > 0 ==> asc(a.drop_first()), b.len() > 0 ==> asc(b.drop_first()),
        a.len() > 0 && (b.len() == 0 || a[0] < b[0]) ==> uni(a, b)[0] == a[0] && uni(a, b).drop_first() == uni(a.drop_first(), b),
        b.len() > 0 && (a.len() == 0 || b[0] < a[0]) ==> uni(a, b)[0] == b[0] && uni(a, b).drop_first() == uni(a, b.drop_first()),
        a.len() > 0 && b.len() > 0 && a[0] == b[0] ==> uni(a, b)[0] == a[0] && uni(a, b).drop_first() == uni(a.drop_first(), b.drop_first()),
{
    if a.len() > 0 { lemma_asc_first(a); } if b.len() > 0 { lemma_asc_first(b); }
    if a.len() > 0 && b.len() > 0 {
        lemma_cons(a[0], uni(a.drop_first(), b)); lemma_cons(b[0], uni(a, b.drop_first())); lemma_cons(a[0], uni(a.drop_first(), b.drop_first()));
    }
}
pub proof fn lemma_sym_step(a: Seq<int>, b: Seq<int>)
    requires asc(a), asc(b),
    ensures a.len() > 0 ==> asc(a.drop_first()), b.len() > 0 ==> asc(b.drop_first()),
        a.len() > 0 && (b.len() == 0 || a[0] < b[0]) ==> sym(a, b)[0] == a[0] && sym(a, b).drop_first() == sym(a.drop_first(), b),
        b.len() > 0 && (a.len() == 0 || b[0] < a[0]) ==> sym(a, b)[0] == b[0] && sym(a, b).drop_first() == sym(a, b.drop_first()),
        a.len() > 0 && b.len() > 0 && a[0] == b[0] ==> sym(a, b) == sym(a.drop_first(), b.drop_first()),
{
    if a.len() > 0 { lemma_asc_first(a); } if b.len() > 0 { lemma_asc_first(b); }
    if a.len() > 0 && b.len() > 0 { lemma_cons(a[0], sym(a.drop_first(), b)); lemma_cons(b[0], sym(a, b.drop_first())); }
}
/// without a head
pub proof fn lemma_search(a: Seq<int>, b: Seq<int>)
    requires asc(a), a.len() > 0,
    ensures asc(a.drop_first()),
        b.contains(a[0]) ==> diff(a, b) == diff(a.drop_first(), b) && inter(a, b)[0] == a[0] && inter(a, b).drop_first() == inter(a.drop_first(), b),
        !b.contains(a[0]) ==> inter(a, b) == inter(a.drop_first(), b) && diff(a, b)[0] == a[0] && diff(a, b).drop_first() == diff(a.drop_first(), b),
{ lemma_asc_first(a); lemma_cons(a[0], inter(a.drop_first(), b)); lemma_cons(a[0], diff(a.drop_first(), b)); }
pub proof fn lemma_inter_none(a: Seq<int>, b: Seq<int>)
    requires b.len() == 0,
    ensures inter(a, b).len() == 0,
    decreases a.len(),
{ if a.len() > 0 { lemma_inter_none(a.drop_first(), b); } }

pub open spec fn opt<T>(x: Option<&T>, s: Seq<int>) -> Seq<int> { match x { Some(k) => cons(krank(*k), s), None => s } }
pub broadcast proof fn lemma_subset_first(a: Seq<int>, b: Seq<int>)
    requires a.len() > 0,
    ensures #[trigger] subset(a, b) <==> b.contains(a[0]) && subset(a.drop_first(), b),
{
    assert forall|x: int| true implies (#[trigger] a.contains(x) <==> a[0] == x || a.drop_first().contains(x)) by { lemma_first(a, x); }
    if b.contains(a[0]) && subset(a.drop_first(), b) { assert(subset(a, b)); }
    if subset(a, b) { assert(a.contains(a[0])); assert forall|x: int| #[trigger] a.drop_first().contains(x) implies b.contains(x) by { assert(a.contains(x)); } }
}
pub proof fn lemma_subset_step(a: Seq<int>, b: Seq<int>)
    requires asc(a), asc(b), a.len() > 0,
    ensures asc(a.drop_first()), b.len() > 0 ==> asc(b.drop_first()),
        b.len() == 0 || a[0] < b[0] ==> !subset(a, b),
        b.len() > 0 && b[0] < a[0] ==> (subset(a, b) <==> subset(a, b.drop_first())),
        b.len() > 0 && b[0] == a[0] ==> (subset(a, b) <==> subset(a.drop_first(), b.drop_first())),
{
    lemma_asc_first(a);
    assert(a.contains(a[0]));
    assert forall|x: int| true implies (#[trigger] a.contains(x) <==> a[0] == x || a.drop_first().contains(x)) by { lemma_first(a, x); }
    if b.len() > 0 {
        lemma_asc_first(b);
        assert forall|x: int| true implies (#[trigger] b.contains(x) <==> b[0] == x || b.drop_first().contains(x)) by { lemma_first(b, x); }
        if b[0] < a[0] { lemma_absent(a, b[0]); }
        if b[0] == a[0] {
            if subset(a, b) { assert forall|x: int| #[trigger] a.drop_first().contains(x) implies b.drop_first().contains(x) by { assert(a.contains(x)); } }
        }
        if a[0] < b[0] { lemma_absent(b, a[0]); }
    }
}
/// x comes next of the ranks s, and those of s2 after it
pub open spec fn step<T>(s: Seq<int>, r: Option<&T>, s2: Seq<int>) -> bool {
    match r { Some(x) => s.len() > 0 && krank(*x) == s[0] && s2 == s.drop_first(), None => s.len() == 0 && s2.len() == 0 }
}
impl<T: Ord> BTreeSet<T> {
    pub open spec fn ok(&self) -> bool { self.map.ok() }
    /// the elements' ranks, in order
    pub open spec fn ranks(&self) -> Seq<int> { rk(keys_of(self.map.s())) }
    pub broadcast proof fn lemma_asc(&self)
        requires self.ok(),
        ensures asc(#[trigger] self.ranks()), self.ranks().len() == self.map.s().len(),
    {
        let s = self.map.s();
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] self.ranks()[i] < #[trigger] self.ranks()[j] by { assert(krank(s[i].0) < krank(s[j].0)); }
    }
    pub proof fn lemma_has(&self, q: int)
        ensures holds(self.map.s(), q) == self.ranks().contains(q),
    {
        let s = self.map.s();
        if holds(s, q) { let i = choose|i: int| #[trigger] at(s, q, i); assert(self.ranks()[i] == q); }
        if self.ranks().contains(q) { let i = choose|i: int| 0 <= i < s.len() && self.ranks()[i] == q; assert(at(s, q, i)); }
    }
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | new | C19
    ensures r.ok(), r.map.s() == Seq::<(T, ())>::empty(),
//@end
//@fn src/btree/set.rs | impl<T: Debug> Debug for BTreeSet<T> | fmt | C20
    requires self.ok(),
    ensures (*final(f), r) == fmt::set_shown(*old(f), keys_of(self.map.s())),
//@body
    proof { assert(Seq::<T>::empty() + keys_of(self.map.s()) =~= keys_of(self.map.s())); }
//@end
//@fn src/btree/set.rs | impl<T> BTreeSet<T> | iter | C13 C18
    requires self.ok(),
    ensures r.rest() == keys_of(self.map.s()),
//@end
//@fn src/btree/set.rs | impl<'a, T> IntoIterator for &'a BTreeSet<T> | into_iter | C13 C18
//@  as vx_iter
//@  sig /\(self\)/ => (&self)
//@  sig /'a/ => '_
    requires self.ok(),
    ensures r.rest() == keys_of(self.map.s()),
//@end
//@fn src/btree/set.rs | impl<T> IntoIterator for BTreeSet<T> | into_iter | C13 C17
    requires self.ok(),
    ensures r.iter.rest() == self.map.s(),
//@end
//@fn src/btree/set.rs | impl<T> BTreeSet<T> | len | C13 C18
    requires self.ok(),
    ensures r == self.map.s().len(),
//@end
//@fn src/btree/set.rs | impl<T> BTreeSet<T> | is_empty | C18 C19
    requires self.ok(),
    ensures r == (self.map.s().len() == 0),
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | clear | C17 C19
    requires old(self).ok(),
    ensures final(self).ok(), final(self).map.s() == Seq::<(T, ())>::empty(),
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | contains | C18 C19
    requires self.ok(),
    ensures r == holds(self.map.s(), qrank(value)),
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | get | C19
//@  rw /Recover::get\(&self\.map, value\)/ => self.map.vx_get(value)
    requires self.ok(),
    ensures match r { Some(x) => exists|i: int| #[trigger] at(self.map.s(), qrank(value), i) && *x == self.map.s()[i].0, None => !holds(self.map.s(), qrank(value)) },
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | range | C14
    requires self.ok(),
    ensures !no_range(&range), exists|i: int, j: int| #[trigger] within(self.map.s(), &range, i, j) && r.iter.rest() == self.map.s().subrange(i, j),
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | try_insert | C16 C19
    requires old(self).ok(),
    ensures final(self).ok(),
        r is Err ==> final(self).map.s() == old(self).map.s(), // [C16]
        r is Ok ==> r->Ok_0 == !holds(old(self).map.s(), krank(value)),
        r == Ok::<bool, TryReserveError>(false) ==> keys_of(final(self).map.s()) == keys_of(old(self).map.s()),
        r == Ok::<bool, TryReserveError>(true) ==> exists|i: int| #[trigger] splits(old(self).map.s(), krank(value), i) && final(self).map.s() == old(self).map.s().insert(i, (value, ())),
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | replace | C16 C19
//@  rw /Recover::replace\(&mut self\.map, value\)/ => self.map.vx_replace(value)
    requires old(self).ok(),
    ensures final(self).ok(),
        r is Err ==> final(self).map.s() == old(self).map.s(), // [C16]
        r is Ok && holds(old(self).map.s(), krank(value)) ==> exists|i: int| #[trigger] at(old(self).map.s(), krank(value), i) && r->Ok_0 == Some(old(self).map.s()[i].0) && final(self).map.s() == old(self).map.s().update(i, (value, ())),
        r is Ok && !holds(old(self).map.s(), krank(value)) ==> r->Ok_0 is None && exists|i: int| #[trigger] splits(old(self).map.s(), krank(value), i) && final(self).map.s() == old(self).map.s().insert(i, (value, ())),
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | remove | C17 C19
    requires old(self).ok(),
    ensures final(self).ok(), r == holds(old(self).map.s(), qrank(value)),
        r ==> exists|i: int| #[trigger] at(old(self).map.s(), qrank(value), i) && final(self).map.s() == old(self).map.s().remove(i),
        !r ==> final(self).map.s() == old(self).map.s(),
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | take | C17 C19
//@  rw /Recover::take\(&mut self\.map, value\)/ => self.map.vx_take(value)
    requires old(self).ok(),
    ensures final(self).ok(),
        holds(old(self).map.s(), qrank(value)) ==> exists|i: int| #[trigger] at(old(self).map.s(), qrank(value), i) && r == Some(old(self).map.s()[i].0) && final(self).map.s() == old(self).map.s().remove(i),
        !holds(old(self).map.s(), qrank(value)) ==> r is None && final(self).map.s() == old(self).map.s(),
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | append | C15
    requires old(self).ok(), old(other).ok(),
    ensures final(self).ok(), final(other).ok(), final(other).map.s().len() == 0, joined(old(self).map.s(), old(other).map.s(), final(self).map.s()),
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | try_split_off | C15 C16
    requires old(self).ok(),
    ensures final(self).ok(),
        r is Err ==> final(self).map.s() == old(self).map.s(), // [C16]
        r is Ok ==> r->Ok_0.ok() && exists|i: int| #[trigger] splits(old(self).map.s(), qrank(key), i) && final(self).map.s() == old(self).map.s().take(i) && r->Ok_0.map.s() == old(self).map.s().skip(i), // [C15]
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | difference | C18
    requires self.ok(), other.ok(),
    ensures r.ok(), r.ranks() == diff(self.ranks(), other.ranks()),
//@body
    broadcast use BTreeSet::lemma_asc;
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | symmetric_difference | C18
    requires self.ok(), other.ok(),
    ensures r.ok(), r.ranks() == sym(self.ranks(), other.ranks()),
//@body
    broadcast use BTreeSet::lemma_asc;
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | intersection | C18
    requires self.ok(), other.ok(),
    ensures r.ok(), forall|x: int| #[trigger] r.ranks().contains(x) <==> self.ranks().contains(x) && other.ranks().contains(x),
        r.ranks().len() == 0 <==> disjoint(self.ranks(), other.ranks()),
//@body
    broadcast use BTreeSet::lemma_asc;
    proof {
        lemma_inter(self.ranks(), other.ranks()); lemma_inter(other.ranks(), self.ranks());
        lemma_disjoint(self.ranks(), other.ranks()); lemma_disjoint(other.ranks(), self.ranks());
    }
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | union | C18
    requires self.ok(), other.ok(),
    ensures r.ok(), r.ranks() == uni(self.ranks(), other.ranks()),
//@body
    broadcast use BTreeSet::lemma_asc;
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | is_disjoint | C18
    requires self.ok(), other.ok(),
    ensures r <==> disjoint(self.ranks(), other.ranks()),
//@body
    broadcast use BTreeSet::lemma_asc;
//@end
#[verifier::loop_isolation(false)]
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | is_subset | C18
//@  rw /(\w+)\.cmp\((\w+)\)/ => vx_cmp(\1, \2)
//@  rw /\bin self\b/ => in self.vx_iter()
    requires self.ok(), other.ok(),
    ensures r <==> subset(self.ranks(), other.ranks()),
//@body
    broadcast use BTreeSet::lemma_asc, lemma_rk, lemma_subset_first;
    proof { if self.ranks().len() > other.ranks().len() && subset(self.ranks(), other.ranks()) { lemma_longer(self.ranks(), other.ranks()); } }
//@loop 0
    invariant asc(opt(a, rk(x.rest()))), asc(opt(b, rk(y.rest()))),
        a is None ==> x.rest().len() == 0, b is None ==> y.rest().len() == 0,
        subset(self.ranks(), other.ranks()) <==> subset(opt(a, rk(x.rest())), opt(b, rk(y.rest()))),
    decreases y.rest().len() + (if b is Some { 1int } else { 0 }),
//@at /if b\.is_none/
 proof {
        let c = opt(a, rk(x.rest())); let d = opt(b, rk(y.rest()));
        lemma_cons(krank(*a->0), rk(x.rest())); lemma_subset_step(c, d);
        if b is Some { lemma_cons(krank(*b->0), rk(y.rest())); }
    }
//@loop 1
    invariant asc(rk(vx_src1.rest())), subset(self.ranks(), other.ranks()) <==> subset(rk(vx_src1.rest()), other.ranks()),
    decreases vx_src1.rest().len(),
//@at /if !other/
 proof { other.lemma_has(krank(*next)); }
//@end
//@fn src/btree/set.rs | impl<T: Ord> BTreeSet<T> | is_superset | C18
    requires self.ok(), other.ok(),
    ensures r <==> subset(other.ranks(), self.ranks()),
//@end
}
impl<'a, T> Iter<'a, T> {
    pub open spec fn rest(&self) -> Seq<T> { self.iter.rest() }
    #[verifier::external_body]
    pub fn peekable(self) -> (r: Peekable<Iter<'a, T>>) ensures r.rest() == self.rest() { unimplemented!() }
//@fn src/btree/set.rs | impl<'a, T> Iterator for Iter<'a, T> | next | C13 C18
    ensures first(old(self).rest(), copied(r), final(self).rest()),
//@end
//@fn src/btree/set.rs | impl<'a, T> Iterator for Iter<'a, T> | size_hint | C13
    ensures r.0 == self.rest().len(), r.1 == Some(r.0),
//@end
//@fn src/btree/set.rs | impl<'a, T> DoubleEndedIterator for Iter<'a, T> | next_back | C13
    ensures last(old(self).rest(), copied(r), final(self).rest()),
//@end
//@fn src/btree/set.rs | impl<T> ExactSizeIterator for Iter<'_, T> | len | C13 C18
    ensures r == self.rest().len(),
//@end
//@fn src/btree/set.rs | impl<T> Clone for Iter<'_, T> | clone | C13 C18
    ensures r.rest() == self.rest(),
//@end
}
impl<T> IntoIter<T> {
    pub open spec fn rest(&self) -> Seq<T> { keys_of(self.iter.rest()) }
//@fn src/btree/set.rs | impl<T> Iterator for IntoIter<T> | next | C13 C17
    ensures first(old(self).rest(), r, final(self).rest()),
//@body
    broadcast use lemma_keys_first, lemma_keys_last;
//@end
//@fn src/btree/set.rs | impl<T> Iterator for IntoIter<T> | size_hint | C13
    ensures r.0 == self.rest().len(), r.1 == Some(r.0),
//@end
//@fn src/btree/set.rs | impl<T> DoubleEndedIterator for IntoIter<T> | next_back | C13 C17
    ensures last(old(self).rest(), r, final(self).rest()),
//@body
    broadcast use lemma_keys_first, lemma_keys_last;
//@end
//@fn src/btree/set.rs | impl<T> ExactSizeIterator for IntoIter<T> | len | C13
    ensures r == self.rest().len(),
//@end
}
impl<'a, T> Range<'a, T> {
    pub open spec fn rest(&self) -> Seq<T> { keys_of(self.iter.rest()) }
//@fn src/btree/set.rs | impl<'a, T> Iterator for Range<'a, T> | next | C14
    ensures first(old(self).rest(), copied(r), final(self).rest()),
//@body
    broadcast use lemma_keys_first, lemma_keys_last;
//@end
//@fn src/btree/set.rs | impl<'a, T> DoubleEndedIterator for Range<'a, T> | next_back | C14
    ensures last(old(self).rest(), copied(r), final(self).rest()),
//@body
    broadcast use lemma_keys_first, lemma_keys_last;
//@end
//@fn src/btree/set.rs | impl<T> Clone for Range<'_, T> | clone | C14
    ensures r.rest() == self.rest(),
//@end
}
//@fn src/btree/set.rs | | cmp_opt | C18
//@  rw /(\w+)\.cmp\((\w+)\)/ => vx_cmp(\1, \2)
    ensures r == (match (x, y) { (None, _) => short, (_, None) => long, (Some(a), Some(b)) => if qrank(a) < qrank(b) { Ordering::Less } else if qrank(a) == qrank(b) { Ordering::Equal } else { Ordering::Greater } }),
//@end
impl<'a, T: Ord> Difference<'a, T> {
    pub open spec fn a(&self) -> Seq<int> { match self.inner { DifferenceInner::Stitch { self_iter, other_iter } => rk(self_iter.rest()), DifferenceInner::Search { self_iter, other_set } => rk(self_iter.rest()) } }
    pub open spec fn b(&self) -> Seq<int> { match self.inner { DifferenceInner::Stitch { self_iter, other_iter } => rk(other_iter.rest()), DifferenceInner::Search { self_iter, other_set } => other_set.ranks() } }
    pub open spec fn ok(&self) -> bool { asc(self.a()) && asc(self.b()) && (self.inner matches DifferenceInner::Search { self_iter, other_set } ==> other_set.ok()) }
    /// what it will still yield
    pub open spec fn ranks(&self) -> Seq<int> { diff(self.a(), self.b()) }
#[verifier::loop_isolation(false)]
//@fn src/btree/set.rs | impl<'a, T: Ord> Iterator for Difference<'a, T> | next | C18
//@  probe loop
//@  rw /\bOrd::cmp\(/ => vx_cmp(
    requires old(self).ok(),
    ensures final(self).ok(), step(old(self).ranks(), r, final(self).ranks()),
//@body
    broadcast use lemma_rk, BTreeSet::lemma_asc;
//@loop 0
    invariant asc(cons(krank(*self_next), rk(self_iter.rest()))), asc(rk(other_iter.rest())),
        diff(cons(krank(*self_next), rk(self_iter.rest())), rk(other_iter.rest())) == old(self).ranks(),
    decreases self_iter.rest().len() + other_iter.rest().len(),
//@at /match \(match other_iter/
 proof {
        let a = cons(krank(*self_next), rk(self_iter.rest())); let b = rk(other_iter.rest());
        lemma_diff_step(a, b); lemma_cons(krank(*self_next), rk(self_iter.rest()));
        if other_iter.rest().len() > 0 { lemma_rk(other_iter.rest()); }
    }
//@loop 1
    invariant asc(rk(self_iter.rest())), other_set.ok(), asc(other_set.ranks()), diff(rk(self_iter.rest()), other_set.ranks()) == old(self).ranks(),
    decreases self_iter.rest().len(),
//@at /let self_next/
 proof { if self_iter.rest().len() > 0 { lemma_search(rk(self_iter.rest()), other_set.ranks()); lemma_rk(self_iter.rest()); other_set.lemma_has(krank(self_iter.rest()[0])); } }
//@end
//@fn src/btree/set.rs | impl<'a, T: Ord> Iterator for Difference<'a, T> | size_hint | C18
    requires self.ok(),
    ensures r.0 <= self.ranks().len(), r.1 is Some && self.ranks().len() <= r.1->0,
//@body
    proof { lemma_diff(self.a(), self.b()); lemma_inter_len(self.a(), self.b()); }
//@end
//@fn src/btree/set.rs | impl<T> Clone for Difference<'_, T> | clone | C18
    requires self.ok(),
    ensures r.ok(), r.ranks() == self.ranks(),
//@end
}
impl<'a, T: Ord> SymmetricDifference<'a, T> {
    pub open spec fn ok(&self) -> bool { asc(rk(self.a.rest())) && asc(rk(self.b.rest())) }
    pub open spec fn ranks(&self) -> Seq<int> { sym(rk(self.a.rest()), rk(self.b.rest())) }
#[verifier::loop_isolation(false)]
//@fn src/btree/set.rs | impl<'a, T: Ord> Iterator for SymmetricDifference<'a, T> | next | C18
//@  probe loop
    requires old(self).ok(),
    ensures final(self).ok(), step(old(self).ranks(), r, final(self).ranks()),
//@body
    broadcast use lemma_rk;
//@loop 0
    invariant self.ok(), self.ranks() == old(self).ranks(),
    decreases self.a.rest().len() + self.b.rest().len(),
//@at /match cmp_opt/
 proof { lemma_sym_step(rk(self.a.rest()), rk(self.b.rest())); }
//@end
//@fn src/btree/set.rs | impl<'a, T: Ord> Iterator for SymmetricDifference<'a, T> | size_hint | C18
    requires self.ok(), self.a.rest().len() + self.b.rest().len() <= usize::MAX, // both sets are in memory
    ensures r.0 <= self.ranks().len(), r.1 is Some && self.ranks().len() <= r.1->0,
//@body
    proof { lemma_sym(rk(self.a.rest()), rk(self.b.rest())); }
//@end
//@fn src/btree/set.rs | impl<T> Clone for SymmetricDifference<'_, T> | clone | C18
    requires self.ok(),
    ensures r.ok(), r.ranks() == self.ranks(),
//@end
}
impl<'a, T: Ord> Intersection<'a, T> {
    pub open spec fn a(&self) -> Seq<int> { match self.inner { IntersectionInner::Stitch { small_iter, other_iter } => rk(small_iter.rest()), IntersectionInner::Search { small_iter, large_set } => rk(small_iter.rest()) } }
    pub open spec fn b(&self) -> Seq<int> { match self.inner { IntersectionInner::Stitch { small_iter, other_iter } => rk(other_iter.rest()), IntersectionInner::Search { small_iter, large_set } => large_set.ranks() } }
    pub open spec fn ok(&self) -> bool { asc(self.a()) && asc(self.b()) && (self.inner matches IntersectionInner::Search { small_iter, large_set } ==> large_set.ok()) }
    pub open spec fn ranks(&self) -> Seq<int> { inter(self.a(), self.b()) }
#[verifier::loop_isolation(false)]
//@fn src/btree/set.rs | impl<'a, T: Ord> Iterator for Intersection<'a, T> | next | C18
//@  probe loop
//@  rw /\bOrd::cmp\(/ => vx_cmp(
    requires old(self).ok(),
    ensures final(self).ok(), step(old(self).ranks(), r, final(self).ranks()),
//@body
    broadcast use lemma_rk, BTreeSet::lemma_asc;
    proof {
        let a = old(self).a(); let b = old(self).b();
        if b.len() == 0 { lemma_inter_none(a, b); if a.len() > 0 { lemma_inter_none(a.drop_first(), b); } }
    }
//@loop 0
    invariant asc(cons(krank(*small_next), rk(small_iter.rest()))), asc(cons(krank(*other_next), rk(other_iter.rest()))),
        inter(cons(krank(*small_next), rk(small_iter.rest())), cons(krank(*other_next), rk(other_iter.rest()))) == old(self).ranks(),
    decreases small_iter.rest().len() + other_iter.rest().len(),
//@at /match vx_cmp/
 proof {
        let a = cons(krank(*small_next), rk(small_iter.rest())); let b = cons(krank(*other_next), rk(other_iter.rest()));
        lemma_inter_step(a, b); lemma_cons(krank(*small_next), rk(small_iter.rest())); lemma_cons(krank(*other_next), rk(other_iter.rest()));
        if other_iter.rest().len() == 0 { lemma_inter_none(a, rk(other_iter.rest())); }
    }
//@loop 1
    invariant asc(rk(small_iter.rest())), large_set.ok(), asc(large_set.ranks()), inter(rk(small_iter.rest()), large_set.ranks()) == old(self).ranks(),
    decreases small_iter.rest().len(),
//@at /let small_next =/
 proof { if small_iter.rest().len() > 0 { lemma_search(rk(small_iter.rest()), large_set.ranks()); lemma_rk(small_iter.rest()); large_set.lemma_has(krank(small_iter.rest()[0])); } }
//@end
//@fn src/btree/set.rs | impl<'a, T: Ord> Iterator for Intersection<'a, T> | size_hint | C18
    requires self.ok(),
    ensures r.0 <= self.ranks().len(), r.1 is Some && self.ranks().len() <= r.1->0,
//@body
    proof { lemma_inter_len(self.a(), self.b()); }
//@end
//@fn src/btree/set.rs | impl<T> Clone for Intersection<'_, T> | clone | C18
    requires self.ok(),
    ensures r.ok(), r.ranks() == self.ranks(),
//@end
}
impl<'a, T: Ord> Union<'a, T> {
    pub open spec fn ok(&self) -> bool { asc(rk(self.a.rest())) && asc(rk(self.b.rest())) }
    pub open spec fn ranks(&self) -> Seq<int> { uni(rk(self.a.rest()), rk(self.b.rest())) }
//@fn src/btree/set.rs | impl<'a, T: Ord> Iterator for Union<'a, T> | next | C18
    requires old(self).ok(),
    ensures final(self).ok(), step(old(self).ranks(), r, final(self).ranks()),
//@body
    broadcast use lemma_rk;
    proof { lemma_uni_step(rk(self.a.rest()), rk(self.b.rest())); }
//@end
//@fn src/btree/set.rs | impl<'a, T: Ord> Iterator for Union<'a, T> | size_hint | C18
    requires self.ok(), self.a.rest().len() + self.b.rest().len() <= usize::MAX, // both sets are in memory
    ensures r.0 <= self.ranks().len(), r.1 is Some && self.ranks().len() <= r.1->0,
//@body
    proof { lemma_uni(rk(self.a.rest()), rk(self.b.rest())); }
//@end
//@fn src/btree/set.rs | impl<T> Clone for Union<'_, T> | clone | C18
    requires self.ok(),
    ensures r.ok(), r.ranks() == self.ranks(),
//@end
}

// ---- collecting ----
#[verifier::external_body]
pub fn vx_clone<T>(x: &T) -> (r: T) ensures krank(r) == krank(*x) { unimplemented!() }
/// infallible by its signature: panics when memory is exhausted
#[verifier::external_body]
pub fn vx_expect<T>(r: Result<T, TryReserveError>) -> (x: T) ensures r == Ok::<T, TryReserveError>(x) { unimplemented!() }
pub struct Cloned<I> { pub it: I }
/// an iterator that yields finitely many elements
pub trait Src<T>: Sized {
    spec fn good(&self) -> bool;
    spec fn left(&self) -> Seq<int>;
    fn next(&mut self) -> (r: Option<T>)
        requires old(self).good(),
        ensures final(self).good(), match r { Some(x) => old(self).left().len() > 0 && krank(x) == old(self).left()[0] && final(self).left() == old(self).left().drop_first(), None => old(self).left().len() == 0 && final(self).left().len() == 0 },
    ;
    fn into_iter(self) -> (r: Self) ensures r == self;
}
/// an iterator over references, as one over what they refer to
pub struct Copies<I> { pub it: I }
pub fn vx_cloned<I>(it: I) -> (r: Copies<I>) ensures r.it == it { Copies { it } }
impl<'a, T: 'a + Ord, I: Src<&'a T>> Src<T> for Copies<I> {
    open spec fn good(&self) -> bool { self.it.good() }
    open spec fn left(&self) -> Seq<int> { self.it.left() }
    fn next(&mut self) -> (r: Option<T>) { match self.it.next() { None => None, Some(x) => { proof { axiom_rank_of_reference(&x); } Some(vx_clone(x)) } } }
    fn into_iter(self) -> (r: Self) { self }
}
impl<'a, T: Ord> Difference<'a, T> { pub fn cloned(self) -> (r: Cloned<Difference<'a, T>>) ensures r.it == self { Cloned { it: self } } }
impl<'a, T: Ord> Src<T> for Cloned<Difference<'a, T>> {
    open spec fn good(&self) -> bool { self.it.ok() }
    open spec fn left(&self) -> Seq<int> { self.it.ranks() }
    fn next(&mut self) -> (r: Option<T>) { match self.it.next() { None => None, Some(x) => Some(vx_clone(x)) } }
    fn into_iter(self) -> (r: Self) { self }
}
impl<'a, T: Ord> Cloned<Difference<'a, T>> {
    pub fn collect(self) -> (r: BTreeSet<T>)
        requires self.it.ok(),
        ensures r.ok(), forall|x: int| #[trigger] r.ranks().contains(x) <==> self.it.ranks().contains(x),
    { BTreeSet::from_iter(self) }
}
impl<'a, T: Ord> SymmetricDifference<'a, T> { pub fn cloned(self) -> (r: Cloned<SymmetricDifference<'a, T>>) ensures r.it == self { Cloned { it: self } } }
impl<'a, T: Ord> Src<T> for Cloned<SymmetricDifference<'a, T>> {
    open spec fn good(&self) -> bool { self.it.ok() }
    open spec fn left(&self) -> Seq<int> { self.it.ranks() }
    fn next(&mut self) -> (r: Option<T>) { match self.it.next() { None => None, Some(x) => Some(vx_clone(x)) } }
    fn into_iter(self) -> (r: Self) { self }
}
impl<'a, T: Ord> Cloned<SymmetricDifference<'a, T>> {
    pub fn collect(self) -> (r: BTreeSet<T>)
        requires self.it.ok(),
        ensures r.ok(), forall|x: int| #[trigger] r.ranks().contains(x) <==> self.it.ranks().contains(x),
    { BTreeSet::from_iter(self) }
}
impl<'a, T: Ord> Intersection<'a, T> { pub fn cloned(self) -> (r: Cloned<Intersection<'a, T>>) ensures r.it == self { Cloned { it: self } } }
impl<'a, T: Ord> Src<T> for Cloned<Intersection<'a, T>> {
    open spec fn good(&self) -> bool { self.it.ok() }
    open spec fn left(&self) -> Seq<int> { self.it.ranks() }
    fn next(&mut self) -> (r: Option<T>) { match self.it.next() { None => None, Some(x) => Some(vx_clone(x)) } }
    fn into_iter(self) -> (r: Self) { self }
}
impl<'a, T: Ord> Cloned<Intersection<'a, T>> {
    pub fn collect(self) -> (r: BTreeSet<T>)
        requires self.it.ok(),
        ensures r.ok(), forall|x: int| #[trigger] r.ranks().contains(x) <==> self.it.ranks().contains(x),
    { BTreeSet::from_iter(self) }
}
impl<'a, T: Ord> Union<'a, T> { pub fn cloned(self) -> (r: Cloned<Union<'a, T>>) ensures r.it == self { Cloned { it: self } } }
impl<'a, T: Ord> Src<T> for Cloned<Union<'a, T>> {
    open spec fn good(&self) -> bool { self.it.ok() }
    open spec fn left(&self) -> Seq<int> { self.it.ranks() }
    fn next(&mut self) -> (r: Option<T>) { match self.it.next() { None => None, Some(x) => Some(vx_clone(x)) } }
    fn into_iter(self) -> (r: Self) { self }
}
impl<'a, T: Ord> Cloned<Union<'a, T>> {
    pub fn collect(self) -> (r: BTreeSet<T>)
        requires self.it.ok(),
        ensures r.ok(), forall|x: int| #[trigger] r.ranks().contains(x) <==> self.it.ranks().contains(x),
    { BTreeSet::from_iter(self) }
}
pub broadcast proof fn lemma_first_all(s: Seq<int>, x: int)
    requires s.len() > 0,
    ensures #![trigger s.drop_first().contains(x)] s.contains(x) <==> s[0] == x || s.drop_first().contains(x),
{ lemma_first(s, x); }
pub proof fn lemma_inserted<T>(s: Seq<(T, ())>, s2: Seq<(T, ())>, i: int, v: T)
    requires 0 <= i <= s.len(), s2 == s.insert(i, (v, ())),
    ensures forall|x: int| #[trigger] rk(keys_of(s2)).contains(x) <==> x == krank(v) || rk(keys_of(s)).contains(x),
{
    let a = rk(keys_of(s)); let b = rk(keys_of(s2));
    assert forall|x: int| #[trigger] b.contains(x) <==> x == krank(v) || a.contains(x) by {
        if b.contains(x) { let j = choose|j: int| 0 <= j < b.len() && b[j] == x; if j < i { assert(a[j] == x); } else if j > i { assert(a[j - 1] == x); } }
        if a.contains(x) { let j = choose|j: int| 0 <= j < a.len() && a[j] == x; if j < i { assert(b[j] == x); } else { assert(b[j + 1] == x); } }
        if x == krank(v) { assert(b[i] == x); }
    }
}
impl<T: Ord> BTreeSet<T> {
//@fn src/btree/set.rs | impl<T: Ord> Extend<T> for BTreeSet<T> | extend | C18
//@  sig /IntoIterator<Item = T>/ => Src<T>
//@  rw /self\.try_insert\(elem\)\.expect\("[^"]*"\)/ => vx_expect(self.try_insert(elem))
    requires old(self).ok(), iter.good(),
    ensures final(self).ok(), forall|x: int| #[trigger] final(self).ranks().contains(x) <==> old(self).ranks().contains(x) || iter.left().contains(x),
//@loop 0
    invariant self.ok(), vx_src1.good(), l0 == vx_src1.left(), forall|x: int| (#[trigger] self.ranks().contains(x) || vx_src1.left().contains(x)) <==> (old(self).ranks().contains(x) || iter.left().contains(x)),
    ensures vx_src1.left().len() == 0,
    decreases vx_src1.left().len(),
//@body
    let ghost mut l0 = iter.left();
//@at /vx_expect/
 let ghost prev = l0; proof { l0 = vx_src1.left(); assert(l0 == prev.drop_first() && prev[0] == krank(elem)); }
 let ghost me = *self; let ghost q = krank(elem); let ghost v = elem;
//@after /vx_expect\(self\.try_insert\(elem\)\);/
 proof {
        me.lemma_has(q);
        if !holds(me.map.s(), q) { let i = choose|i: int| #[trigger] splits(me.map.s(), q, i) && self.map.s() == me.map.s().insert(i, (v, ())); lemma_inserted(me.map.s(), self.map.s(), i, v); }
        assert forall|x: int| true implies (#[trigger] self.ranks().contains(x) <==> x == q || me.ranks().contains(x)) by { }
        assert forall|x: int| (#[trigger] self.ranks().contains(x) || l0.contains(x)) <==> (old(self).ranks().contains(x) || iter.left().contains(x)) by { lemma_first(prev, x); assert(me.ranks().contains(x) || !me.ranks().contains(x)); }
    }
//@end
}
impl<'a, T: 'a + Ord + Copy> BTreeSet<T> {
//@fn src/btree/set.rs | impl<'a, T: 'a + Ord + Copy> Extend<&'a T> for BTreeSet<T> | extend | C18
//@  as extend_refs
//@  sig /extend_refs<I: IntoIterator<Item = &'a T>>|extend<I: IntoIterator<Item = &'a T>>/ => extend<I: Src<&'a T>>
//@  rw /iter\.into_iter\(\)\.(?:cloned|copied)\(\)/ => vx_cloned(iter.into_iter())
    requires old(self).ok(), iter.good(),
    ensures final(self).ok(), forall|x: int| #[trigger] final(self).ranks().contains(x) <==> old(self).ranks().contains(x) || iter.left().contains(x),
//@end
}
impl<T: Ord> BTreeSet<T> {
//@fn src/btree/set.rs | impl<T: Ord> Default for BTreeSet<T> | default | C19
    ensures r.ok(), r.map.s() == Seq::<(T, ())>::empty(),
//@end
//@fn src/btree/set.rs | impl<T: Ord> FromIterator<T> for BTreeSet<T> | from_iter | C18
//@  sig /IntoIterator<Item = T>/ => Src<T>
    requires iter.good(),
    ensures r.ok(), forall|x: int| #[trigger] r.ranks().contains(x) <==> iter.left().contains(x),
//@end
//@fn src/btree/set.rs | impl<T: Ord + Clone> Sub<&BTreeSet<T>> for &BTreeSet<T> | sub | C18
//@  sig /\(self,/ => (&self,
    requires self.ok(), rhs.ok(),
    ensures r.ok(), forall|x: int| #[trigger] r.ranks().contains(x) <==> self.ranks().contains(x) && !rhs.ranks().contains(x),
//@body
    broadcast use BTreeSet::lemma_asc;
    proof { lemma_diff(self.ranks(), rhs.ranks()); lemma_sym(self.ranks(), rhs.ranks()); lemma_inter(self.ranks(), rhs.ranks()); lemma_uni(self.ranks(), rhs.ranks()); }
//@end
//@fn src/btree/set.rs | impl<T: Ord + Clone> BitXor<&BTreeSet<T>> for &BTreeSet<T> | bitxor | C18
//@  sig /\(self,/ => (&self,
    requires self.ok(), rhs.ok(),
    ensures r.ok(), forall|x: int| #[trigger] r.ranks().contains(x) <==> self.ranks().contains(x) != rhs.ranks().contains(x),
//@body
    broadcast use BTreeSet::lemma_asc;
    proof { lemma_diff(self.ranks(), rhs.ranks()); lemma_sym(self.ranks(), rhs.ranks()); lemma_inter(self.ranks(), rhs.ranks()); lemma_uni(self.ranks(), rhs.ranks()); }
//@end
//@fn src/btree/set.rs | impl<T: Ord + Clone> BitAnd<&BTreeSet<T>> for &BTreeSet<T> | bitand | C18
//@  sig /\(self,/ => (&self,
    requires self.ok(), rhs.ok(),
    ensures r.ok(), forall|x: int| #[trigger] r.ranks().contains(x) <==> self.ranks().contains(x) && rhs.ranks().contains(x),
//@body
    broadcast use BTreeSet::lemma_asc;
    proof { lemma_diff(self.ranks(), rhs.ranks()); lemma_sym(self.ranks(), rhs.ranks()); lemma_inter(self.ranks(), rhs.ranks()); lemma_uni(self.ranks(), rhs.ranks()); }
//@end
//@fn src/btree/set.rs | impl<T: Ord + Clone> BitOr<&BTreeSet<T>> for &BTreeSet<T> | bitor | C18
//@  sig /\(self,/ => (&self,
    requires self.ok(), rhs.ok(),
    ensures r.ok(), forall|x: int| #[trigger] r.ranks().contains(x) <==> self.ranks().contains(x) || rhs.ranks().contains(x),
//@body
    broadcast use BTreeSet::lemma_asc;
    proof { lemma_diff(self.ranks(), rhs.ranks()); lemma_sym(self.ranks(), rhs.ranks()); lemma_inter(self.ranks(), rhs.ranks()); lemma_uni(self.ranks(), rhs.ranks()); }
//@end
}
}
fn main() {}
