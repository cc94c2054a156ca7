// The contracts over the sequence of entries (map_model.rsi), which the units on sets, merging and entries assume, follow
// from those over the map's memory, which are proved of src/btree: a map is its root and length and the memory its nodes
// are in. The text of the model is map_model.rsi's, with the bodies below.
use vstd::prelude::*;
use core::cmp::Ordering;
use core::borrow::Borrow;
verus! {
//@assume treeinto.rs
/// references to entries, as references
pub fn vx_deref_k<'a, K, V>(p: RP<K>, h: &'a Heap<K, V>, Ghost(i): Ghost<int>) -> (r: &'a K)
    requires shape(h, &h.t@), entry_k(p, h, i),
    ensures *r == h.t@.s[i].0,
{
    proof { lemma_there(h, p.a()); lemma_slot(h, p.a(), p.off()); }
    h.ks.peek(p)
}
pub fn vx_deref_v<'a, K, V>(p: RP<V>, h: &'a Heap<K, V>, Ghost(i): Ghost<int>) -> (r: &'a V)
    requires shape(h, &h.t@), entry_v(p, h, i),
    ensures *r == h.t@.s[i].1,
{
    proof { lemma_there(h, p.a()); lemma_slot(h, p.a(), p.off()); }
    h.vs.peek(p)
}
/// a node with entries is not the static one
pub proof fn lemma_there<K, V>(h: &Heap<K, V>, p: usize)
    requires shape(h, &h.t@), h.t@.fp.contains(p), h.n(p).vals.len() > 0 || h.n(p).keys.len() > 0,
    ensures h.dom().contains(p), h.n(p).ok, h.n(p).vals.len() == h.n(p).keys.len(),
{ assert(node_ok(h, &h.t@, p)); }
/// memory is finite: nodes take at least 16 bytes each and hold 11 entries at most
pub axiom fn axiom_finite<K, V>(h: &Heap<K, V>)
    requires shape(h, &h.t@),
    ensures h.t@.s.len() < usize::MAX,
;
/// a map's memory begins as memory without nodes
#[verifier::external_body]
pub fn vx_memory<K, V>() -> (r: Heap<K, V>) ensures r.wf(), r.dom() == Set::<usize>::empty() { unimplemented!() }

/// the memory of the nodes of two trees, divided between them
#[verifier::external_body]
pub fn vx_divide<K, V>(h: &mut Heap<K, V>, Ghost(t): Ghost<Tree<K, V>>) -> (r: Heap<K, V>)
    requires old(h).wf(), forall|q: usize| #[trigger] old(h).t@.fp.contains(q) && q != SHARED ==> !t.fp.contains(q),
    ensures piece(old(h), final(h), &old(h).t@), piece(old(h), &r, &t),
{ unimplemented!() }
/// the part of the heap o that holds the nodes of t
pub open spec fn piece<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, t: &Tree<K, V>) -> bool {
    &&& h.t@ == *t
    &&& h.hd@ == o.hd@.restrict(t.fp) && h.ks@ == o.ks@.restrict(t.fp) && h.vs@ == o.vs@.restrict(t.fp) && h.es@ == o.es@.restrict(t.fp)
}
pub proof fn lemma_piece<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, t: &Tree<K, V>)
    requires o.wf(), tree(o, t), piece(o, h, t),
    ensures tree(h, t),
{
    assert(h.ks@.dom() =~= h.dom()); assert(h.vs@.dom() =~= h.dom()); assert(h.es@.dom() =~= h.dom());
    assert forall|q: usize| #[trigger] t.fp.contains(q) implies h.live(q) && h.n(q) == o.n(q) by { assert(node_ok(o, t, q)); assert(o.live(q)); if q != SHARED { assert(h.hd@.dom().contains(q)); } }
    assert forall|p: usize| t.fp.contains(p) implies #[trigger] up_ok(h, t, p) by { assert(up_ok(o, t, p)); }
    assert forall|p: usize| t.fp.contains(p) implies #[trigger] occ_ok(h, t, p) by { assert(occ_ok(o, t, p)); }
    assert forall|p: usize| t.fp.contains(p) implies #[trigger] node_ok(h, t, p) by {
        assert(node_ok(o, t, p));
        if h.n(p).leaf { assert forall|i: int| 0 <= i < h.n(p).keys.len() implies t.s[t.off(p) + i].0 == #[trigger] h.n(p).keys[i] by { } } else {
            assert forall|i: int| 0 <= i < h.n(p).edges.len() implies child_at(h, t, p, i, #[trigger] h.n(p).edges[i]) by { assert(child_at(o, t, p, i, o.n(p).edges[i])); let c = o.n(p).edges[i]; assert(h.live(c)); assert(c != SHARED) by { assert(o.dom().contains(c)); } }
            assert forall|i: int| 0 <= i < h.n(p).keys.len() implies #[trigger] sep_ok(h, t, p, i) by { assert(sep_ok(o, t, p, i)); }
        }
    }
}
pub proof fn lemma_first<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a < b <= s.len(),
    ensures s.subrange(a, b)[0] == s[a], s.subrange(a, b).drop_first() == s.subrange(a + 1, b), s.subrange(a, b).last() == s[b - 1], s.subrange(a, b).drop_last() == s.subrange(a, b - 1), s.subrange(a, b).len() == b - a,
{ assert(s.subrange(a, b).drop_first() =~= s.subrange(a + 1, b)); assert(s.subrange(a, b).drop_last() =~= s.subrange(a, b - 1)); }
/// where the ends of an iterator are
pub proof fn lemma_span<K, V>(r: &Range<K, V>, h: &Heap<K, V>)
    requires shape(h, &h.t@), r.spans(h, pos(&r.front, h), pos(&r.back, h)),
    ensures 0 <= pos(&r.front, h) <= pos(&r.back, h) <= h.t@.s.len(), pos(&r.front, h) < pos(&r.back, h) ==> h.t@.s.subrange(pos(&r.front, h), pos(&r.back, h)).len() > 0,
{ lemma_up(h, r.front.node.node.a); lemma_up(h, r.back.node.node.a); }
pub proof fn lemma_span_owned<K, V>(it: &IntoIter<K, V>, h: &Heap<K, V>)
    requires it.left(h, it.a(), it.b()),
    ensures 0 <= it.a() <= it.b() <= it.o@.t@.s.len(),
{ lemma_up(&it.o@, it.front.node.node.a); lemma_up(&it.o@, it.back.node.node.a); }
//@seam map_model.rsi
//@prove /\nuse model::\*/

//@prove /broadcast use \{model/

//@prove /pub broadcast axiom fn axiom_rank_of_reference/

//@prove /use core::ops::RangeBounds;/
use super::{qrank, Heap, TryReserveError, RangeBounds, vx_deref_k, vx_deref_v, axiom_finite, ax_self, shape, tree, pos, Iter, Range, IntoIter, lemma_span, lemma_span_owned, lemma_first, vx_memory, vx_hold, vx_divide, lemma_piece, lemma_nothing, nothing, gap, parts, Tree, above, under, from_ok, to_ok, root_is, building, topfull, full, rightmost, Src};
//@prove /pub struct TryReserveError/

//@prove /pub uninterp spec fn qrank/

//@prove /pub broadcast axiom fn axiom_ok/
    pub broadcast proof fn axiom_ok<K, V>(m: &BTreeMap<K, V>)
        requires #[trigger] m.ok(),
        ensures sorted(m.s()), m.s().len() <= usize::MAX,
    { lemma_sorted(m.s()); }
    pub proof fn lemma_rank<K>(k: K) ensures krank(k) == super::krank(k) { ax_self(&k); }
    pub proof fn lemma_sorted<K, V>(s: Seq<(K, V)>) requires super::sorted(s) ensures sorted(s) {
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies krank((#[trigger] s[i]).0) < krank((#[trigger] s[j]).0) by { lemma_rank(s[i].0); lemma_rank(s[j].0); }
    }
    pub proof fn lemma_has<K, V>(h: &Heap<K, V>, q: int) ensures super::BTreeMap::has(h, q) == holds(h.t@.s, q) {
        let s = h.t@.s;
        if super::BTreeMap::has(h, q) { let i = choose|i: int| 0 <= i < s.len() && super::krank((#[trigger] s[i]).0) == q; lemma_rank(s[i].0); assert(at(s, q, i)); }
        if holds(s, q) { let i = choose|i: int| #[trigger] at(s, q, i); lemma_rank(s[i].0); }
    }
    pub proof fn lemma_sorted_back<K, V>(s: Seq<(K, V)>) requires sorted(s) ensures super::sorted(s) {
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies super::krank((#[trigger] s[i]).0) < super::krank((#[trigger] s[j]).0) by { lemma_rank(s[i].0); lemma_rank(s[j].0); }
    }
    /// an iterator, as what from_sorted_iter is given
    pub struct Fed<I> { pub it: I }
    impl<T, I: Feed<T>> Src<T> for Fed<I> {
        open spec fn good(&self) -> bool { self.it.good() }
        open spec fn rest(&self) -> Seq<T> { self.it.feed() }
        fn next(&mut self) -> (r: Option<T>) { self.it.next() }
    }
    /// a key that belongs between two entries is none of theirs
    pub proof fn lemma_gap<K, V>(s: Seq<(K, V)>, q: int, i: int)
        requires gap(s, q, i),
        ensures splits(s, q, i), !holds(s, q),
    {
        assert forall|j: int| 0 <= j < i implies krank((#[trigger] s[j]).0) < q by { lemma_rank(s[j].0); }
        assert forall|j: int| i <= j < s.len() implies q < krank((#[trigger] s[j]).0) by { lemma_rank(s[j].0); }
        if holds(s, q) { let j = choose|j: int| #[trigger] at(s, q, j); assert(krank(s[j].0) == q); }
    }
    pub proof fn lemma_at<K, V>(s: Seq<(K, V)>, q: int, i: int)
        requires 0 <= i < s.len(), super::krank(s[i].0) == q,
        ensures at(s, q, i), holds(s, q),
    { lemma_rank(s[i].0); assert(at(s, q, i)); }
    /// what it means that a range admits a key
    pub axiom fn axiom_admits<K, Q: ?Sized, R: RangeBounds<Q>>(range: &R)
        ensures forall|k: K| #[trigger] admits(range, k) == (above(range.lo(), super::krank(k)) && under(range.hi(), super::krank(k))), no_range(range) == super::no_range(range.lo(), range.hi()),
    ;
//@prove /impl<K, V> BTreeMap<K, V> \{.*?pub uninterp spec fn s\b/
    pub open spec fn s(&self) -> Seq<(K, V)> { self.h.t@.s }
//@prove /impl<K, V> BTreeMap<K, V> \{.*?pub uninterp spec fn ok\b/
    pub open spec fn ok(&self) -> bool { self.m.ok(&self.h) }
//@prove /impl<K, V> BTreeMap<K, V> \{.*?pub fn len\b/
    self.m.len(&self.h)
//@prove /impl<K, V> BTreeMap<K, V> \{.*?pub fn is_empty\b/
    self.m.is_empty(&self.h)
//@prove /impl<K, V> BTreeMap<K, V> \{.*?pub fn iter\b/
    let r = MapIter { it: self.m.iter(&self.h), h: &self.h };
    proof { assert(r.rest() =~= self.s()); }
    r
//@prove /impl<K, V> BTreeMap<K, V> \{.*?pub fn keys\b/
    let r = Keys { it: self.m.keys(&self.h), h: &self.h };
    proof { assert(r.rest() =~= keys_of(self.s())); }
    r
//@prove /impl<K, V> BTreeMap<K, V> \{.*?pub fn into_iter\b/
    let BTreeMap { m, h } = self;
    let it = m.into_iter(&h);
    let r = MapIntoIter { it: Some((it, h)) };
    proof { assert(r.rest() =~= self.s()); }
    r
//@prove /impl<K, V> BTreeMap<K, V> \{.*?pub uninterp spec fn ragged\b/
    pub open spec fn ragged(&self) -> bool { root_is(&self.m, &self.h) && self.m.length == self.h.t@.s.len() && building(&self.h) && topfull(&self.h) && super::sorted(self.h.t@.s) }
//@prove /impl<K: Ord, V> BTreeMap<K, V> \{.*?pub fn from_sorted_iter\b/
    proof { lemma_sorted_back(iter.feed()); assert(self.h.t@.s =~= Seq::<(K, V)>::empty()); }
    let iter = Fed { it: iter };
    self.m.from_sorted_iter(iter, &mut self.h);
//@prove /impl<K: Ord, V> BTreeMap<K, V> \{.*?pub fn fix_right_edge\b/
    let ghost t = self.h.t@;
    proof { assert forall|q: usize| t.fp.contains(q) && q != t.root && !rightmost(&self.h, q) implies (#[trigger] self.h.n(q)).keys.len() >= 9 by { assert(full(&self.h, q)); } }
    self.m.fix_right_edge(&mut self.h);
//@prove /impl<K: Ord, V> BTreeMap<K, V> \{.*?pub fn new\b/
    let mut h = vx_memory::<K, V>();
    vx_hold(Ghost(nothing::<K, V>()), &mut h);
    proof { lemma_nothing(&h); }
    BTreeMap { m: super::BTreeMap::new(), h }
//@prove /impl<K: Ord, V> BTreeMap<K, V> \{.*?pub fn clear\b/
    self.m.clear(&mut self.h);
    proof { assert(self.s() =~= Seq::<(K, V)>::empty()); }
//@prove /impl<K: Ord, V> BTreeMap<K, V> \{.*?pub fn contains_key\b/
    proof { lemma_has(&self.h, qrank(k)); }
    self.m.contains_key(k, &self.h)
//@prove /impl<K: Ord, V> BTreeMap<K, V> \{.*?pub fn get\b/
    proof { lemma_has(&self.h, qrank(k)); }
    match self.m.get(k, &self.h) {
        None => None,
        Some(p) => {
            let ghost i = choose|i: int| super::entry_v(p, &self.h, i) && super::krank((#[trigger] self.h.t@.s[i]).0) == qrank(k);
            proof { lemma_at(self.s(), qrank(k), i); }
            Some(vx_deref_v(p, &self.h, Ghost(i)))
        }
    }
//@prove /impl<K: Ord, V> BTreeMap<K, V> \{.*?pub fn range\b/
    proof { axiom_admits::<K, Q, R>(&range); }
    let ghost lo = range.lo(); let ghost hi = range.hi(); let ghost g = range;
    let r = MapRange { it: self.m.range(range, &self.h), h: &self.h };
    proof {
        let s = self.s(); let i = pos(&r.it.front, r.h); let j = pos(&r.it.back, r.h);
        lemma_span(&r.it, r.h);
        assert(within(s, &g, i, j)) by {
            assert forall|x: int| 0 <= x < s.len() implies (i <= x < j <==> admits(&g, (#[trigger] s[x]).0)) by { }
        }
    }
    r
//@prove /impl<K: Ord, V> BTreeMap<K, V> \{.*?pub fn try_insert\b/
    proof { axiom_finite(&self.h); lemma_rank(k); lemma_has(&self.h, krank(k)); }
    let ghost s = self.s(); let ghost q = krank(k);
    let r = self.m.try_insert(k, v, &mut self.h);
    proof {
        match r {
            Ok(None) => { let i = choose|i: int| #[trigger] gap(s, q, i) && self.s() == s.insert(i, (k, v)); lemma_gap(s, q, i); }
            Ok(Some(ref x)) => { let i = choose|i: int| 0 <= i < s.len() && super::krank((#[trigger] s[i]).0) == q && *x == s[i].1 && self.s() == s.update(i, (s[i].0, v)); lemma_at(s, q, i); }
            Err(_) => { }
        }
    }
    r
//@prove /impl<K: Ord, V> BTreeMap<K, V> \{.*?pub fn remove\b/
    proof { lemma_has(&self.h, qrank(k)); }
    let ghost s = self.s(); let ghost q = qrank(k);
    let r = self.m.remove(k, &mut self.h);
    proof {
        if let Some(ref x) = r { let i = choose|i: int| 0 <= i < s.len() && super::krank((#[trigger] s[i]).0) == q && *x == s[i].1 && self.s() == s.remove(i); lemma_at(s, q, i); }
    }
    r
//@prove /impl<K: Ord, V> BTreeMap<K, V> \{.*?pub fn split_off\b/
    let ghost o = self.h; let ghost q = qrank(key);
    let r = self.m.split_off(key, &mut self.h);
    let ghost h1 = self.h;
    match r {
        Err(e) => Err(e),
        Ok(m) => {
            assert(exists|t: Tree<K, V>| #[trigger] parts(&o, &h1, &m, &t, q));
            let ghost t = choose|t: Tree<K, V>| #[trigger] parts(&o, &h1, &m, &t, q);
            let h = vx_divide(&mut self.h, Ghost(t));
            proof {
                lemma_piece(&h1, &self.h, &h1.t@); lemma_piece(&h1, &h, &t);
                let s = o.t@.s; let a = h1.t@.s; let i = a.len() as int;
                assert(s.take(i) =~= a); assert(s.skip(i) =~= t.s);
                assert(splits(s, q, i)) by {
                    assert forall|j: int| 0 <= j < i implies krank((#[trigger] s[j]).0) < q by { lemma_rank(s[j].0); assert(a[j] == s[j]); }
                    assert forall|j: int| i <= j < s.len() implies q <= krank((#[trigger] s[j]).0) by { lemma_rank(s[j].0); assert(t.s[j - i] == s[j]); }
                }
            }
            let r = BTreeMap { m, h };
            proof { assert(r.ok()); assert(self.ok()); assert(r.s() == old(self).s().skip(h1.t@.s.len() as int)); assert(self.s() == old(self).s().take(h1.t@.s.len() as int)); assert(splits(old(self).s(), qrank(key), h1.t@.s.len() as int)); }
            Ok(r)
        }
    }
//@prove /impl<K: Ord> BTreeMap<K, \(\)> \{.*?pub fn vx_get\b/
    proof { lemma_has(&self.h, qrank(k)); }
    match self.m.recover_get(k, &self.h) {
        None => None,
        Some(p) => {
            let ghost i = choose|i: int| super::entry_k(p, &self.h, i) && super::krank((#[trigger] self.h.t@.s[i]).0) == qrank(k);
            proof { lemma_at(self.s(), qrank(k), i); }
            Some(vx_deref_k(p, &self.h, Ghost(i)))
        }
    }
//@prove /impl<K: Ord> BTreeMap<K, \(\)> \{.*?pub fn vx_take\b/
    proof { lemma_has(&self.h, qrank(k)); }
    let ghost s = self.s(); let ghost q = qrank(k);
    let r = self.m.recover_take(k, &mut self.h);
    proof {
        if let Some(ref x) = r { let i = choose|i: int| 0 <= i < s.len() && super::krank((#[trigger] s[i]).0) == q && *x == s[i].0 && self.s() == s.remove(i); lemma_at(s, q, i); }
    }
    r
//@prove /impl<K: Ord> BTreeMap<K, \(\)> \{.*?pub fn vx_replace\b/
    proof { axiom_finite(&self.h); lemma_rank(k); lemma_has(&self.h, krank(k)); }
    let ghost s = self.s(); let ghost q = krank(k);
    let r = self.m.recover_replace(k, &mut self.h);
    proof {
        match r {
            Ok(None) => { let i = choose|i: int| #[trigger] gap(s, q, i) && self.s() == s.insert(i, (k, ())); lemma_gap(s, q, i); }
            Ok(Some(ref x)) => { let i = choose|i: int| 0 <= i < s.len() && super::krank((#[trigger] s[i]).0) == q && *x == s[i].0 && self.s() == s.update(i, (k, ())); lemma_at(s, q, i); }
            Err(_) => { }
        }
    }
    r
//@prove /impl<'a, K, V> MapIter<'a, K, V> \{.*?pub uninterp spec fn rest\b/
    pub closed spec fn rest(&self) -> Seq<(K, V)> { self.h.t@.s.subrange(self.it.a(self.h), self.it.b(self.h)) }
//@prove /impl<'a, K, V> MapIter<'a, K, V> \{.*?pub fn next\b/
    proof { use_type_invariant(&*self); lemma_span(&self.it.range, self.h); }
    let mut it = self.it.clone();
    let h = self.h;
    let ghost s = h.t@.s; let ghost a = pos(&it.range.front, h); let ghost b = pos(&it.range.back, h);
    proof { if a < b { lemma_first(s, a, b); } }
    let r = it.next(h);
    *self = MapIter { it, h };
    
    match r { None => None, Some(x) => { let ghost i = a; Some((vx_deref_k(x.0, h, Ghost(i)), vx_deref_v(x.1, h, Ghost(i)))) } }
//@prove /impl<'a, K, V> MapIter<'a, K, V> \{.*?pub fn len\b/
    proof { use_type_invariant(&*self); lemma_span(&self.it.range, self.h); }
    self.it.len(self.h)
//@prove /impl<'a, K, V> MapRange<'a, K, V> \{.*?pub uninterp spec fn rest\b/
    pub closed spec fn rest(&self) -> Seq<(K, V)> { self.h.t@.s.subrange(pos(&self.it.front, self.h), pos(&self.it.back, self.h)) }
//@prove /impl<'a, K, V> MapRange<'a, K, V> \{.*?pub fn next\b/
    proof { use_type_invariant(&*self); lemma_span(&self.it, self.h); }
    let mut it = self.it.clone();
    let h = self.h;
    let ghost s = h.t@.s; let ghost a = pos(&it.front, h); let ghost b = pos(&it.back, h);
    proof { if a < b { lemma_first(s, a, b); } }
    let r = it.next(h);
    *self = MapRange { it, h };
    
    match r { None => None, Some(x) => { let ghost i = a; Some((vx_deref_k(x.0, h, Ghost(i)), vx_deref_v(x.1, h, Ghost(i)))) } }
//@prove /impl<'a, K, V> MapRange<'a, K, V> \{.*?pub fn next_back\b/
    proof { use_type_invariant(&*self); lemma_span(&self.it, self.h); }
    let mut it = self.it.clone();
    let h = self.h;
    let ghost s = h.t@.s; let ghost a = pos(&it.front, h); let ghost b = pos(&it.back, h);
    proof { if a < b { lemma_first(s, a, b); } }
    let r = it.next_back(h);
    *self = MapRange { it, h };
    
    match r { None => None, Some(x) => { let ghost i = b - 1; Some((vx_deref_k(x.0, h, Ghost(i)), vx_deref_v(x.1, h, Ghost(i)))) } }
//@prove /impl<'a, K, V> MapRange<'a, K, V> \{.*?pub fn clone\b/
    proof { use_type_invariant(&*self); }
    MapRange { it: self.it.clone(), h: self.h }
//@prove /impl<'a, K, V> Keys<'a, K, V> \{.*?pub uninterp spec fn rest\b/
    pub closed spec fn rest(&self) -> Seq<K> { keys_of(self.h.t@.s.subrange(self.it.inner.a(self.h), self.it.inner.b(self.h))) }
//@prove /impl<'a, K, V> Keys<'a, K, V> \{.*?pub fn next\b/
    proof { use_type_invariant(&*self); lemma_span(&self.it.inner.range, self.h); }
    let mut it = self.it.clone();
    let h = self.h;
    let ghost s = h.t@.s; let ghost a = pos(&it.inner.range.front, h); let ghost b = pos(&it.inner.range.back, h);
    proof { if a < b { lemma_first(s, a, b); } }
    let r = it.next(h);
    *self = Keys { it, h };
    proof { let k = keys_of(s.subrange(a, b)); assert(k.len() > 0 ==> k.drop_first() =~= keys_of(s.subrange(a, b).drop_first()) && k.drop_last() =~= keys_of(s.subrange(a, b).drop_last())); }
    match r { None => None, Some(x) => { let ghost i = a; Some(vx_deref_k(x, h, Ghost(i))) } }
//@prove /impl<'a, K, V> Keys<'a, K, V> \{.*?pub fn next_back\b/
    proof { use_type_invariant(&*self); lemma_span(&self.it.inner.range, self.h); }
    let mut it = self.it.clone();
    let h = self.h;
    let ghost s = h.t@.s; let ghost a = pos(&it.inner.range.front, h); let ghost b = pos(&it.inner.range.back, h);
    proof { if a < b { lemma_first(s, a, b); } }
    let r = it.next_back(h);
    *self = Keys { it, h };
    proof { let k = keys_of(s.subrange(a, b)); assert(k.len() > 0 ==> k.drop_first() =~= keys_of(s.subrange(a, b).drop_first()) && k.drop_last() =~= keys_of(s.subrange(a, b).drop_last())); }
    match r { None => None, Some(x) => { let ghost i = b - 1; Some(vx_deref_k(x, h, Ghost(i))) } }
//@prove /impl<'a, K, V> Keys<'a, K, V> \{.*?pub fn len\b/
    proof { use_type_invariant(&*self); lemma_span(&self.it.inner.range, self.h); }
    self.it.len(self.h)
//@prove /impl<'a, K, V> Keys<'a, K, V> \{.*?pub fn size_hint\b/
    proof { use_type_invariant(&*self); lemma_span(&self.it.inner.range, self.h); }
    self.it.size_hint()
//@prove /impl<'a, K, V> Keys<'a, K, V> \{.*?pub fn clone\b/
    proof { use_type_invariant(&*self); }
    Keys { it: self.it.clone(), h: self.h }
//@prove /impl<K, V> MapIntoIter<K, V> \{.*?pub uninterp spec fn rest\b/
    pub closed spec fn rest(&self) -> Seq<(K, V)> { match self.it { None => Seq::empty(), Some((it, _)) => it.o@.t@.s.subrange(it.a(), it.b()) } }
//@prove /impl<K, V> MapIntoIter<K, V> \{.*?pub fn next\b/
    let mut me = MapIntoIter { it: None };
    core::mem::swap(self, &mut me);
    proof { use_type_invariant(&me); }
    match me.it {
        None => None,
        Some((mut it, mut h)) => {
            let ghost s = it.o@.t@.s; let ghost a = it.a(); let ghost b = it.b();
            proof { lemma_span_owned(&it, &h); if a < b { lemma_first(s, a, b); } }
            let r = it.next(&mut h);
            *self = MapIntoIter { it: Some((it, h)) };
            r
        }
    }
//@prove /impl<K, V> MapIntoIter<K, V> \{.*?pub fn next_back\b/
    let mut me = MapIntoIter { it: None };
    core::mem::swap(self, &mut me);
    proof { use_type_invariant(&me); }
    match me.it {
        None => None,
        Some((mut it, mut h)) => {
            let ghost s = it.o@.t@.s; let ghost a = it.a(); let ghost b = it.b();
            proof { lemma_span_owned(&it, &h); if a < b { lemma_first(s, a, b); } }
            let r = it.next_back(&mut h);
            *self = MapIntoIter { it: Some((it, h)) };
            r
        }
    }
//@prove /impl<K, V> MapIntoIter<K, V> \{.*?pub fn len\b/
    proof { use_type_invariant(&*self); }
    match &self.it { None => 0, Some(x) => { proof { lemma_span_owned(&x.0, &x.1); } x.0.len() } }
//@prove /impl<K, V> MapIntoIter<K, V> \{.*?pub fn size_hint\b/
    proof { use_type_invariant(&*self); }
    match &self.it { None => (0, Some(0)), Some(x) => { proof { lemma_span_owned(&x.0, &x.1); } x.0.size_hint() } }
//@prove /pub struct BTreeMap/
pub struct BTreeMap<K, V> { pub m: super::BTreeMap<K, V>, pub h: Heap<K, V> }
//@prove /pub struct MapIter</
pub struct MapIter<'a, K, V> { it: Iter<'a, K, V>, h: &'a Heap<K, V> }
impl<'a, K, V> MapIter<'a, K, V> {
    #[verifier::type_invariant]
    closed spec fn inv(&self) -> bool { self.it.ok(self.h) }
}
//@prove /pub struct MapRange</
pub struct MapRange<'a, K, V> { it: Range<'a, K, V>, h: &'a Heap<K, V> }
impl<'a, K, V> MapRange<'a, K, V> {
    #[verifier::type_invariant]
    closed spec fn inv(&self) -> bool { shape(self.h, &self.h.t@) && self.it.spans(self.h, pos(&self.it.front, self.h), pos(&self.it.back, self.h)) }
}
//@prove /pub struct Keys</
pub struct Keys<'a, K, V> { it: super::Keys<'a, K, V>, h: &'a Heap<K, V> }
impl<'a, K, V> Keys<'a, K, V> {
    #[verifier::type_invariant]
    closed spec fn inv(&self) -> bool { self.it.inner.ok(self.h) }
}
//@prove /pub struct MapIntoIter</
pub struct MapIntoIter<K, V> { it: Option<(IntoIter<K, V>, Heap<K, V>)> }
impl<K, V> MapIntoIter<K, V> {
    #[verifier::type_invariant]
    closed spec fn inv(&self) -> bool { match self.it { None => true, Some((it, h)) => it.left(&h, it.a(), it.b()) } }
}
//@endseam
// ---- entries ----
/// what the heap is when the value at p, of the heap o, has been given out as a reference and v was left in it
pub open spec fn lent<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: RP<V>, v: V) -> bool {
    &&& h.hd == o.hd && h.ks == o.ks && h.es == o.es && h.vs@ == o.vs@.insert(p.a(), o.vs@[p.a()].update(p.off(), Some(v)))
    &&& h.t@ == tree_of(&set_t(&snap(o), p.a(), p.off(), (o.n(p.a()).keys[p.off()], v)))
}
/// the reference a pointer to a value names: the slot, and the tree's entry, hold what is written through it
#[verifier::external_body]
pub fn vx_lend<'a, K, V>(p: RP<V>, h: &'a mut Heap<K, V>) -> (r: &'a mut V)
    requires can(old(h).vs@, p.a(), p.off(), 1), old(h).vs@[p.a()][p.off()] is Some,
    ensures Some(*r) == old(h).vs@[p.a()][p.off()], lent(old(h), final(h), p, *final(r)),
{ unimplemented!() }
pub open spec fn lent_ok<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: RP<V>, i: int, v: V) -> bool {
    &&& tree(h, &h.t@) && h.wf() && kept(o, h) && h.t@.s == o.t@.s.update(i, (o.t@.s[i].0, v)) && h.t@.root == o.t@.root && h.t@.ht(h.t@.root) == o.t@.ht(o.t@.root)
    &&& h.t@.fp == o.t@.fp && h.dom() == o.dom() && h.t@.ht(p.a()) == o.t@.ht(p.a()) && entry_v(p, h, i) && h.n(p.a()) == (NodeV { vals: o.n(p.a()).vals.update(p.off(), v), ..o.n(p.a()) })
}
pub proof fn lemma_lent_one<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: RP<V>, i: int, v: V)
    requires tree(o, &o.t@), entry_v(p, o, i), lent(o, h, p, v), 
    ensures lent_ok(o, h, p, i, v),
{
    let a = p.a(); let j = p.off(); let k = o.n(a).keys[j]; let g = set_t(&snap(o), a, j, (k, v));
    lemma_there(o, a); lemma_slot(o, a, j);
    assert(h.vs@.dom() =~= o.vs@.dom());
    assert(h.n(a) =~~= NodeV { keys: o.n(a).keys.update(j, k), vals: o.n(a).vals.update(j, v), ..o.n(a) });
    assert(o.n(a).keys.update(j, k) =~= o.n(a).keys);
    assert forall|q: usize| q != a implies #[trigger] h.n(q) == o.n(q) by {}
    lemma_set(o, h, a, j, k, v);
    lemma_install(h, &g);
    assert(k == o.t@.s[i].0);
    assert(tree_of(&g).fp == o.t@.fp);
    assert(g.in_(a) && g.in_(g.root));
    lemma_kvpos(o, a, j);
    assert(kvpos(h, &h.t@, a, j) == i) by { assert(node_ok(o, &o.t@, a)); if o.t@.ht(a) > 0 { lemma_child(o, &o.t@, a, j); assert(g.in_(o.n(a).edges[j])); } }
    assert forall|q: usize| #[trigger] foreign(h, q) == foreign(o, q) by {}
}
pub proof fn lemma_lent<K, V>(o: &Heap<K, V>, p: RP<V>, i: int)
    requires tree(o, &o.t@), entry_v(p, o, i),
    ensures can(o.vs@, p.a(), p.off(), 1), o.vs@[p.a()][p.off()] == Some(o.t@.s[i].1), forall|h: &Heap<K, V>, v: V| #[trigger] lent(o, h, p, v) ==> lent_ok(o, h, p, i, v),
{
    let a = p.a(); let j = p.off();
    lemma_there(o, a); lemma_slot(o, a, j);
    assert(o.n(a).vals[j] == o.t@.s[i].1);
    assert forall|h: &Heap<K, V>, v: V| #[trigger] lent(o, h, p, v) implies lent_ok(o, h, p, i, v) by { lemma_lent_one(o, h, p, i, v); }
}
pub mod entries {
use vstd::prelude::*;
//@type src/btree/map.rs | pub enum Entry<'a, K: 'a, V: 'a> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>), } => pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
//@seam entry_model.rsi
//@prove /use super::\{krank, holds, splits, at, sorted, TryReserveError, BTreeMap, Entry\};/
use super::Entry;
use crate as map;
use crate::{RP, Heap, Root, Handle, NodeRef, marker, vx_lend, lemma_lent, lent, lent_ok, vx_deref_k, vx_deref_v, entry_v, tree, TryReserveError, map_is, axiom_finite, lemma_same, gap};
use crate::model::{krank, holds, splits, at, sorted, BTreeMap, lemma_rank, lemma_at, lemma_gap, lemma_has};
//@prove /pub struct OccupiedEntry</
pub struct OccupiedEntry<'a, K, V> { pub e: map::OccupiedEntry<'a, K, V>, pub h: &'a mut Heap<K, V> }
//@prove /pub struct VxPlace</
pub struct VxPlace<'a, K, V> { pub handle: Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge>, pub length: &'a mut usize, pub root: &'a mut Root<K, V>, pub h: &'a mut Heap<K, V> }
//@prove /impl<'a, K, V> VxPlace<'a, K, V> \{.*?pub uninterp spec fn now\b/
    pub open spec fn now(&self) -> Seq<(K, V)> { (*self.h).t@.s }
//@prove /impl<'a, K, V> VxPlace<'a, K, V> \{.*?pub uninterp spec fn fin\b/
    #[verifier::prophetic]
    pub open spec fn fin(&self) -> Seq<(K, V)> { (*final(self.h)).t@.s }
//@prove /impl<'a, K, V> VxPlace<'a, K, V> \{.*?pub uninterp spec fn kept\b/
    #[verifier::prophetic]
    pub open spec fn kept(&self) -> bool { map_is(*final(self.root), *final(self.length), final(self.h)) }
//@prove /impl<'a, K, V> VxPlace<'a, K, V> \{.*?pub uninterp spec fn fits\b/
    pub open spec fn fits(&self, key: K) -> bool { (map::VacantEntry { key, handle: self.handle, length: self.length, root: self.root }).ok(&*self.h) }
//@prove /impl<'a, K, V> OccupiedEntry<'a, K, V> \{.*?pub uninterp spec fn now\b/
    pub open spec fn now(&self) -> Seq<(K, V)> { (*self.h).t@.s }
//@prove /impl<'a, K, V> OccupiedEntry<'a, K, V> \{.*?pub uninterp spec fn fin\b/
    #[verifier::prophetic]
    pub open spec fn fin(&self) -> Seq<(K, V)> { (*final(self.h)).t@.s }
//@prove /impl<'a, K, V> OccupiedEntry<'a, K, V> \{.*?pub uninterp spec fn kept\b/
    #[verifier::prophetic]
    pub open spec fn kept(&self) -> bool { map_is(*final(self.e.root), *final(self.e.length), final(self.h)) }
//@prove /impl<'a, K, V> OccupiedEntry<'a, K, V> \{.*?pub uninterp spec fn i\b/
    pub open spec fn i(&self) -> int { self.e.i(&*self.h) }
//@prove /impl<'a, K, V> OccupiedEntry<'a, K, V> \{.*?pub uninterp spec fn ok\b/
    pub open spec fn ok(&self) -> bool { self.e.ok(&*self.h) }
//@prove /impl<'a, K, V> OccupiedEntry<'a, K, V> \{.*?pub fn key\b/
    let ghost i = self.i();
    vx_deref_k(self.e.key(&*self.h), &*self.h, Ghost(i))
//@prove /impl<'a, K, V> OccupiedEntry<'a, K, V> \{.*?pub fn get\b/
    let ghost i = self.i();
    vx_deref_v(self.e.get(&*self.h), &*self.h, Ghost(i))
//@prove /impl<'a, K, V> OccupiedEntry<'a, K, V> \{.*?pub fn get_mut\b/
    let ghost o = *self.h; let ghost i = self.i();
    let p = self.e.get_mut(&*self.h);
    proof { lemma_lent(&o, p, i); }
    vx_lend(p, &mut *self.h)
//@prove /impl<'a, K, V> OccupiedEntry<'a, K, V> \{.*?pub fn into_mut\b/
    let OccupiedEntry { e, h } = self;
    let ghost o = *h; let ghost i = e.i(&*h);
    let p = e.into_mut(&*h);
    proof { lemma_lent(&o, p, i); }
    vx_lend(p, h)
//@prove /impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> \{.*?pub fn remove_kv\b/
    let OccupiedEntry { e, h } = self;
    e.remove_kv(h)
//@prove /impl<'a, K: Ord, V> VacantEntry<'a, K, V> \{.*?pub fn try_insert\b/
    let VacantEntry { key, place } = self;
    let VxPlace { handle, length, root, h } = place;
    let ghost o = *h;
    let e = map::VacantEntry { key, handle, length, root };
    let ghost i = e.i(&o);
    proof { axiom_finite(&o); lemma_rank(key); lemma_gap(o.t@.s, krank(key), i); }
    match e.try_insert(value, &mut *h) {
        Ok(p) => {
            let ghost h1 = *h;
            proof { lemma_lent(&h1, p, i); assert(forall|v: V| #[trigger] h1.t@.s.update(i, (key, v)) =~= o.t@.s.insert(i, (key, v))); }
            let r = vx_lend(p, h);
            assert(splits(self.now(), krank(self.key), i));
            assert(*r == value);
            assert(self.fin() == h1.t@.s.update(i, (key, *final(r))));
            assert(self.fin() == self.now().insert(i, (self.key, *final(r))));
            assert(self.kept());
            Ok(r)
        }
        Err(x) => { proof { lemma_same(h, &o); } assert(h.t@.s == self.now()); assert(self.fin() == self.now()); assert(self.kept()); Err(x) }
    }
//@prove /pub fn try_entry</
    let ghost o = m.h;
    proof { lemma_rank(key); lemma_has(&m.h, krank(key)); }
    match m.m.try_entry(key, &mut m.h) {
        Err(x) => { proof { lemma_same(&m.h, &o); } Err(x) }
        Ok(map::Entry::Occupied(e)) => {
            proof { let i = e.i(&m.h); lemma_at(o.t@.s, krank(key), i); }
            Ok(Entry::Occupied(OccupiedEntry { e, h: &mut m.h }))
        }
        Ok(map::Entry::Vacant(e)) => {
            proof { let i = e.i(&m.h); lemma_gap(o.t@.s, krank(key), i); }
            let map::VacantEntry { key: k, handle, length, root } = e;
            Ok(Entry::Vacant(VacantEntry { key: k, place: VxPlace { handle, length, root, h: &mut m.h } }))
        }
    }
//@endseam
}
}
fn main() {}
