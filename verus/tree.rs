// Searching and walking the tree: src/btree/search.rs and the navigation, ranges and borrowing iterators of src/btree/map.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
use core::borrow::Borrow;
verus! {
//@assume node.rs
//@include tree_model.rsi
use SearchResult::*;
use ForceResult::*;
//@threads search_linear search_node search_tree first_leaf_edge last_leaf_edge range_search next_unchecked next_back_unchecked
/// Ord::cmp of a key looked for with a key of the tree
#[verifier::external_body]
pub fn vx_cmp<K, V, Q: ?Sized>(q: &Q, k: RP<K>, h: &Heap<K, V>) -> (r: Ordering)
    requires can(h.ks@, k.a(), k.off(), 1), h.ks@[k.a()][k.off()] is Some,
    ensures r == (if qrank(q) < krank(h.ks@[k.a()][k.off()]->Some_0) { Ordering::Less } else if qrank(q) == krank(h.ks@[k.a()][k.off()]->Some_0) { Ordering::Equal } else { Ordering::Greater }),
{ unimplemented!() }
/// slice::Iter::enumerate
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct EnumIter<T> { p: PhantomData<T> }
impl<T> EnumIter<T> {
    pub uninterp spec fn sl(&self) -> RS<T>;
    pub uninterp spec fn i(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, RP<T>)>)
        requires 0 <= old(self).i() <= old(self).sl().n(),
        ensures final(self).sl() == old(self).sl(),
            old(self).i() == old(self).sl().n() ==> r is None && final(self).i() == old(self).i(),
            old(self).i() < old(self).sl().n() ==> r is Some && r->Some_0.0 == old(self).i() && r->Some_0.1.a() == old(self).sl().a() && r->Some_0.1.off() == old(self).sl().off() + old(self).i() && final(self).i() == old(self).i() + 1,
    { unimplemented!() }
}
impl<T> RS<T> {
    pub fn iter(self) -> (r: RS<T>) ensures r == self { self }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: EnumIter<T>) ensures r.sl() == self, r.i() == 0 { unimplemented!() }
}
/// what search_linear finds: the first of the keys that is not below q, and whether it is equal
pub open spec fn found<K>(ks: Seq<K>, q: int, i: int, eq: bool) -> bool {
    &&& 0 <= i <= ks.len() && (forall|j: int| 0 <= j < i ==> krank(#[trigger] ks[j]) < q)
    &&& eq ==> i < ks.len() && krank(ks[i]) == q
    &&& !eq && i < ks.len() ==> q < krank(ks[i])
}
//@fn src/btree/search.rs | | search_linear | C11 C12 C14
//@  heap ref
//@  rw /key\.cmp\(k\.borrow\(\)\)/ => vx_cmp(key, k, h)
    requires node.good(h),
    ensures found(node.nv(h).keys, qrank(key), r.0 as int, r.1),
//@loop 0
    invariant node.good(h), vx_src1.sl().a() == node.node.a, vx_src1.sl().off() == 0, vx_src1.sl().n() == node.nv(h).keys.len(), 0 <= vx_src1.i() <= vx_src1.sl().n(),
        forall|j: int| 0 <= j < vx_src1.i() ==> krank(#[trigger] node.nv(h).keys[j]) < qrank(key),
    ensures vx_src1.i() == vx_src1.sl().n(),
    decreases vx_src1.sl().n() - vx_src1.i(),
//@end
impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> {
    /// refers to a node of the tree
    pub open spec fn in_tree(&self, h: &Heap<K, V>) -> bool { h.t@.fp.contains(self.node.a) && h.t@.ht(self.node.a) == self.height }
}
/// q belongs between the entries before position i and those from i on
pub open spec fn gap<K, V>(s: Seq<(K, V)>, q: int, i: int) -> bool {
    &&& 0 <= i <= s.len()
    &&& forall|j: int| 0 <= j < i ==> krank((#[trigger] s[j]).0) < q
    &&& forall|j: int| i <= j < s.len() ==> q < krank((#[trigger] s[j]).0)
}
/// if q is in the map, it is below p
pub open spec fn below<K, V>(h: &Heap<K, V>, p: usize, q: int) -> bool {
    let t = h.t@;
    &&& forall|j: int| 0 <= j < t.off(p) ==> krank((#[trigger] t.s[j]).0) < q
    &&& forall|j: int| t.end(p) <= j < t.s.len() ==> q < krank((#[trigger] t.s[j]).0)
}
/// edge i of the node p is where q belongs
pub open spec fn edge_for<K, V>(h: &Heap<K, V>, p: usize, i: int, q: int) -> bool {
    if h.n(p).leaf { gap(h.t@.s, q, h.t@.off(p) + i) } else { below(h, h.n(p).edges[i], q) }
}
pub proof fn lemma_edge_for<K, V>(h: &Heap<K, V>, p: usize, i: int, q: int)
    requires shape(h, &h.t@), sorted(h.t@.s), h.t@.fp.contains(p), below(h, p, q), found(h.n(p).keys, q, i, false),
    ensures edge_for(h, p, i, q),
{
    let t = h.t@; let n = h.n(p); let s = t.s;
    assert(node_ok(h, &t, p));
    if n.leaf {
        assert forall|j: int| 0 <= j < t.off(p) + i implies krank((#[trigger] s[j]).0) < q by { if j >= t.off(p) { assert(s[t.off(p) + (j - t.off(p))].0 == n.keys[j - t.off(p)]); } }
        assert forall|j: int| t.off(p) + i <= j < s.len() implies q < krank((#[trigger] s[j]).0) by {
            if j < t.end(p) { assert(s[t.off(p) + i].0 == n.keys[i]); if j > t.off(p) + i { assert(krank(s[t.off(p) + i].0) < krank(s[j].0)); } }
        }
    } else {
        let c = n.edges[i];
        lemma_inside(h, &t, p, i);
        assert forall|j: int| 0 <= j < t.off(c) implies krank((#[trigger] s[j]).0) < q by {
            if i > 0 { assert(sep_ok(h, &t, p, i - 1)); let e = t.end(n.edges[i - 1]); assert(s[e].0 == n.keys[i - 1]); if j < e { assert(krank(s[j].0) < krank(s[e].0)); } }
        }
        assert forall|j: int| t.end(c) <= j < s.len() implies q < krank((#[trigger] s[j]).0) by {
            if i < n.keys.len() { assert(sep_ok(h, &t, p, i)); let e = t.end(c); assert(s[e].0 == n.keys[i]); if e < j { assert(krank(s[e].0) < krank(s[j].0)); } }
        }
    }
}
/// a key/value pair of a node is the entry at its position
pub proof fn lemma_kvpos<K, V>(h: &Heap<K, V>, p: usize, i: int)
    requires shape(h, &h.t@), h.t@.fp.contains(p), 0 <= i < h.n(p).keys.len(),
    ensures h.t@.off(p) <= kvpos(h, &h.t@, p, i) < h.t@.end(p) <= h.t@.s.len(), h.t@.s[kvpos(h, &h.t@, p, i)] == (h.n(p).keys[i], h.n(p).vals[i]),
{
    let t = h.t@; let n = h.n(p);
    assert(node_ok(h, &t, p));
    if n.leaf { assert(t.s[t.off(p) + i].0 == n.keys[i]); assert(t.s[t.off(p) + i].1 == n.vals[i]); }
    else { lemma_inside(h, &t, p, i); lemma_inside(h, &t, p, i + 1); assert(sep_ok(h, &t, p, i)); }
}
/// key/value pair i of the node p is entry e
pub open spec fn entry_at<K, V>(h: &Heap<K, V>, p: usize, i: int, e: int) -> bool {
    &&& h.t@.fp.contains(p) && 0 <= i < h.n(p).keys.len() && h.n(p).vals.len() == h.n(p).keys.len() && kvpos(h, &h.t@, p, i) == e
    &&& 0 <= e < h.t@.s.len() && h.t@.s[e] == (h.n(p).keys[i], h.n(p).vals[i])
}
//@fn src/btree/search.rs | | search_node | C11 C12
//@  heap ref
    requires shape(h, &h.t@), sorted(h.t@.s), node.in_tree(h), below(h, node.node.a, qrank(key)),
    ensures match r {
        Found(x) => x.node == node && x.idx < node.nv(h).keys.len() && krank(node.nv(h).keys[x.idx as int]) == qrank(key),
        GoDown(x) => x.node == node && x.idx <= node.nv(h).keys.len() && edge_for(h, node.node.a, x.idx as int, qrank(key)),
    },
//@body
    proof {
        assert(node_ok(h, &h.t@, node.node.a));
        assert forall|i: int| #[trigger] found(node.nv(h).keys, qrank(key), i, false) implies edge_for(h, node.node.a, i, qrank(key)) by { lemma_edge_for(h, node.node.a, i, qrank(key)); }
    }
//@end
//@fn src/btree/search.rs | | search_tree | C11 C12 C16
//@  probe loop
//@  heap ref
    requires tree(h, &h.t@), node.in_tree(h), below(h, node.node.a, qrank(key)),
    ensures match r {
        Found(x) => x.node.in_tree(h) && x.node.own(h) && h.kvok(x.node.node.a) && x.idx < x.node.nv(h).keys.len()
            && entry_at(h, x.node.node.a, x.idx as int, kvpos(h, &h.t@, x.node.node.a, x.idx as int)) && krank(h.t@.s[kvpos(h, &h.t@, x.node.node.a, x.idx as int)].0) == qrank(key),
        GoDown(x) => x.node.in_tree(h) && x.node.height == 0 && x.idx <= x.node.nv(h).keys.len() && gap(h.t@.s, qrank(key), h.t@.off(x.node.node.a) + x.idx),
    },
//@loop 0
    invariant tree(h, &h.t@), node.in_tree(h), below(h, node.node.a, qrank(key)),
    decreases node.height,
//@at /match search_node/
 proof { assert(node_ok(h, &h.t@, node.node.a)); assert forall|i: int| 0 <= i < node.nv(h).keys.len() implies entry_at(h, node.node.a, i, #[trigger] kvpos(h, &h.t@, node.node.a, i)) by { lemma_kvpos(h, node.node.a, i); } }
//@after /Internal\(internal\) => \{/
 proof { lemma_inside(h, &h.t@, internal.node.node.a, internal.idx as int); assert(node_ok(h, &h.t@, h.n(internal.node.node.a).edges[internal.idx as int])); }
//@end

// ---- navigation ----
/// a leaf edge, and the position among the entries it stands for
pub open spec fn edge_in<B, K, V>(e: &Handle<NodeRef<B, K, V, marker::Leaf>, marker::Edge>, h: &Heap<K, V>) -> bool {
    e.node.in_tree(h) && e.node.height == 0 && e.idx <= e.node.nv(h).keys.len()
}
pub open spec fn pos<B, K, V>(e: &Handle<NodeRef<B, K, V, marker::Leaf>, marker::Edge>, h: &Heap<K, V>) -> int { h.t@.off(e.node.node.a) + e.idx }
pub open spec fn pos_is<B, K, V>(e: &Handle<NodeRef<B, K, V, marker::Leaf>, marker::Edge>, h: &Heap<K, V>, i: int) -> bool { edge_in(e, h) && pos(e, h) == i }
/// references to the key and the value of entry i
pub open spec fn entry<K, V>(k: RP<K>, v: RP<V>, h: &Heap<K, V>, i: int) -> bool {
    &&& h.t@.fp.contains(k.a()) && v.a() == k.a() && v.off() == k.off()
    &&& 0 <= k.off() < h.n(k.a()).keys.len() && kvpos(h, &h.t@, k.a(), k.off()) == i
    &&& 0 <= i < h.t@.s.len() && h.t@.s[i] == (h.n(k.a()).keys[k.off()], h.n(k.a()).vals[k.off()])
}
pub open spec fn entry_v<K, V>(v: RP<V>, h: &Heap<K, V>, i: int) -> bool {
    &&& h.t@.fp.contains(v.a()) && 0 <= v.off() < h.n(v.a()).vals.len() && kvpos(h, &h.t@, v.a(), v.off()) == i
    &&& 0 <= i < h.t@.s.len() && h.t@.s[i].1 == h.n(v.a()).vals[v.off()]
}
pub open spec fn entry_k<K, V>(k: RP<K>, h: &Heap<K, V>, i: int) -> bool {
    &&& h.t@.fp.contains(k.a()) && 0 <= k.off() < h.n(k.a()).keys.len() && kvpos(h, &h.t@, k.a(), k.off()) == i
    &&& 0 <= i < h.t@.s.len() && h.t@.s[i].0 == h.n(k.a()).keys[k.off()]
}
/// edges at the same position are the same edge
pub proof fn lemma_same_edge<K, V>(h: &Heap<K, V>, a: usize, i: int, b: usize, j: int)
    requires shape(h, &h.t@), h.t@.fp.contains(a), h.t@.fp.contains(b), h.t@.ht(a) == 0, h.t@.ht(b) == 0,
        0 <= i <= h.n(a).keys.len(), 0 <= j <= h.n(b).keys.len(), h.t@.off(a) + i == h.t@.off(b) + j,
    ensures a == b, i == j,
{
    assert(node_ok(h, &h.t@, a)); assert(node_ok(h, &h.t@, b));
    if a != b { lemma_apart(h, &h.t@, a, b); }
}
/// what a node that is not at the end of the entries has above it
pub proof fn lemma_up<K, V>(h: &Heap<K, V>, p: usize)
    requires shape(h, &h.t@), h.t@.fp.contains(p),
    ensures node_ok(h, &h.t@, p), h.t@.ht(p) < 0x1_0000_0000,
        h.t@.end(p) < h.t@.s.len() || h.t@.off(p) > 0 ==> p != h.t@.root,
        p == h.t@.root ==> h.n(p).parent == 0,
        p != h.t@.root ==> ({ let u = h.n(p).parent; let i = h.n(p).pidx;
            u != 0 && u != p && h.t@.fp.contains(u) && h.t@.ht(u) == h.t@.ht(p) + 1 && 0 <= i < h.n(u).edges.len() && h.n(u).edges[i] == p && node_ok(h, &h.t@, u) && inner_ok(h, &h.t@, u) && child_at(h, &h.t@, u, i, p) && u != SHARED
            && h.n(u).keys.len() + 1 == h.n(u).edges.len()
            && (i == h.n(u).keys.len() ==> h.t@.end(u) == h.t@.end(p)) && (i == 0 ==> h.t@.off(u) == h.t@.off(p))
            && (i < h.n(u).keys.len() ==> kvpos(h, &h.t@, u, i) == h.t@.end(p)) && (i > 0 ==> kvpos(h, &h.t@, u, i - 1) == h.t@.off(p) - 1) }),
{
    let t = h.t@;
    assert(node_ok(h, &t, p)); assert(up_ok(h, &t, p)); assert(node_ok(h, &t, t.root));
    if p != t.root {
        let u = h.n(p).parent; let i = h.n(p).pidx;
        assert(node_ok(h, &t, u)); lemma_child(h, &t, u, i);
        if i > 0 { assert(sep_ok(h, &t, u, i - 1)); }
    }
}
/// edge e of an internal node leads to the child whose entries follow separator e - 1 and precede separator e
pub proof fn lemma_down<K, V>(h: &Heap<K, V>, p: usize, i: int)
    requires shape(h, &h.t@), h.t@.fp.contains(p), h.t@.ht(p) > 0, 0 <= i <= h.n(p).keys.len(),
    ensures node_ok(h, &h.t@, p), h.n(p).edges.len() == h.n(p).keys.len() + 1, h.es@[p][i] is Some, child_at(h, &h.t@, p, i, h.n(p).edges[i]), node_ok(h, &h.t@, h.n(p).edges[i]), p != SHARED, h.dom().contains(p),
        i > 0 ==> h.t@.off(h.n(p).edges[i]) == kvpos(h, &h.t@, p, i - 1) + 1, i < h.n(p).keys.len() ==> h.t@.end(h.n(p).edges[i]) == kvpos(h, &h.t@, p, i),
        h.t@.off(p) <= h.t@.off(h.n(p).edges[i]) <= h.t@.end(h.n(p).edges[i]) <= h.t@.end(p),
        i == 0 ==> h.t@.off(h.n(p).edges[i]) == h.t@.off(p), i == h.n(p).keys.len() ==> h.t@.end(h.n(p).edges[i]) == h.t@.end(p),
{
    assert(node_ok(h, &h.t@, p));
    lemma_child(h, &h.t@, p, i); lemma_inside(h, &h.t@, p, i);
    if i > 0 { lemma_child(h, &h.t@, p, i - 1); }
}
/// the node q is there, and so is the way down to the left (to the right)
pub open spec fn there<K, V>(h: &Heap<K, V>, q: usize) -> bool {
    let n = h.n(q); let t = h.t@;
    &&& h.live(q) && n.ok && n.leaf == (t.ht(q) == 0) && t.ht(q) >= 0 && n.keys.len() <= 11 && t.off(q) <= t.end(q) <= t.s.len() && t.off(q) >= 0 && n.vals.len() == n.keys.len()
    &&& if n.leaf { t.end(q) == t.off(q) + n.keys.len() } else { n.edges.len() == n.keys.len() + 1 && q != SHARED }
}
pub open spec fn first_ok<K, V>(h: &Heap<K, V>, q: usize) -> bool {
    let n = h.n(q); let t = h.t@;
    there(h, q) && (t.ht(q) > 0 ==> t.fp.contains(n.edges[0]) && t.ht(n.edges[0]) == t.ht(q) - 1 && t.off(n.edges[0]) == t.off(q))
}
pub open spec fn last_ok<K, V>(h: &Heap<K, V>, q: usize) -> bool {
    let n = h.n(q); let t = h.t@; let c = n.edges[n.keys.len() as int];
    there(h, q) && (t.ht(q) > 0 ==> t.fp.contains(c) && t.ht(c) == t.ht(q) - 1 && t.end(c) == t.end(q))
}
/// the nodes at the left (the right) edge of what is below p are there
pub open spec fn spine_l<K, V>(h: &Heap<K, V>, p: usize) -> bool { forall|q: usize| h.t@.fp.contains(q) && h.t@.off(q) == h.t@.off(p) && h.t@.ht(q) <= h.t@.ht(p) ==> #[trigger] first_ok(h, q) }
pub open spec fn spine_r<K, V>(h: &Heap<K, V>, p: usize) -> bool { forall|q: usize| h.t@.fp.contains(q) && h.t@.end(q) == h.t@.end(p) && h.t@.ht(q) <= h.t@.ht(p) ==> #[trigger] last_ok(h, q) }
pub proof fn lemma_spine<K, V>(h: &Heap<K, V>, p: usize)
    requires shape(h, &h.t@),
    ensures spine_l(h, p), spine_r(h, p),
{
    assert forall|q: usize| h.t@.fp.contains(q) implies #[trigger] first_ok(h, q) by { assert(node_ok(h, &h.t@, q)); if h.t@.ht(q) > 0 { lemma_down(h, q, 0); } }
    assert forall|q: usize| h.t@.fp.contains(q) implies #[trigger] last_ok(h, q) by { assert(node_ok(h, &h.t@, q)); if h.t@.ht(q) > 0 { lemma_down(h, q, h.n(q).keys.len() as int); } }
}
#[verifier::loop_isolation(false)]
//@fn src/btree/map.rs | | first_leaf_edge | C13 C14
//@  probe loop
//@  heap ref
    requires h.wf(), node.in_tree(h), shape(h, &h.t@) || spine_l(h, node.node.a),
    ensures pos_is(&r, h, h.t@.off(node.node.a)), r.idx == 0,
//@body
    let ghost n0 = node;
    proof { if shape(h, &h.t@) { lemma_spine(h, node.node.a); } }
//@loop 0
    invariant spine_l(h, n0.node.a), node.in_tree(h), h.t@.off(n0.node.a) == h.t@.off(node.node.a), h.t@.ht(node.node.a) <= h.t@.ht(n0.node.a),
    decreases node.height,
//@at /match node\.force/
 proof { assert(first_ok(h, node.node.a)); }
//@end
#[verifier::loop_isolation(false)]
//@fn src/btree/map.rs | | last_leaf_edge | C13 C14
//@  probe loop
//@  heap ref
    requires h.wf(), node.in_tree(h), shape(h, &h.t@) || spine_r(h, node.node.a),
    ensures pos_is(&r, h, h.t@.end(node.node.a)), r.idx == r.node.nv(h).keys.len(), last_ok(h, r.node.node.a),
//@body
    let ghost n0 = node;
    proof { if shape(h, &h.t@) { lemma_spine(h, node.node.a); } }
//@loop 0
    invariant spine_r(h, n0.node.a), node.in_tree(h), h.t@.end(node.node.a) == h.t@.end(n0.node.a), h.t@.ht(node.node.a) <= h.t@.ht(n0.node.a),
    decreases node.height,
//@at /match node\.force/
 proof { assert(last_ok(h, node.node.a)); }
//@end
pub fn vx_never<T>() -> T requires false { loop invariant false, decreases 0int { } }
#[verifier::external_body]
pub fn vx_debug_assertions() -> bool { unimplemented!() }
//@fn src/btree/map.rs | | unwrap_unchecked | C13 C14
//@  rw /panic!\([^)]*\)\s*;?/ => vx_never()
//@  rw /intrinsics::unreachable\(\)\s*;?/ => vx_never()
//@  rw /cfg!\(debug_assertions\)/ => vx_debug_assertions()
    requires val is Some,
    ensures Some(r) == val,
//@end
pub struct Range<'a, K, V> { pub front: Handle<NodeRef<marker::Immut<'a>, K, V, marker::Leaf>, marker::Edge>, pub back: Handle<NodeRef<marker::Immut<'a>, K, V, marker::Leaf>, marker::Edge> }
pub struct RangeMut<'a, K, V> { pub front: Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge>, pub back: Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge>, pub _marker: PhantomData<(K, V)> }
pub struct Iter<'a, K, V> { pub range: Range<'a, K, V>, pub length: usize }
pub struct IterMut<'a, K, V> { pub range: RangeMut<'a, K, V>, pub length: usize }
pub struct Keys<'a, K, V> { pub inner: Iter<'a, K, V> }
pub struct Values<'a, K, V> { pub inner: Iter<'a, K, V> }
pub struct ValuesMut<'a, K, V> { pub inner: IterMut<'a, K, V> }
//@include fmt_model.rsi
pub open spec fn ks_of<K, V>(s: Seq<(K, V)>) -> Seq<K> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn vs_of<K, V>(s: Seq<(K, V)>) -> Seq<V> { Seq::new(s.len(), |i: int| s[i].1) }
/// an iterator over entries of the tree, as something to print
pub trait Walk<K, V, X>: Sized {
    spec fn good(&self, h: &Heap<K, V>) -> bool;
    spec fn walk(&self, h: &Heap<K, V>) -> Seq<X>;
}
impl<'a, K, V> Walk<K, V, (K, V)> for Range<'a, K, V> {
    open spec fn good(&self, h: &Heap<K, V>) -> bool { shape(h, &h.t@) && self.spans(h, pos(&self.front, h), pos(&self.back, h)) }
    open spec fn walk(&self, h: &Heap<K, V>) -> Seq<(K, V)> { h.t@.s.subrange(pos(&self.front, h), pos(&self.back, h)) }
}
impl<'a, K, V> Walk<K, V, (K, V)> for Iter<'a, K, V> {
    open spec fn good(&self, h: &Heap<K, V>) -> bool { self.ok(h) }
    open spec fn walk(&self, h: &Heap<K, V>) -> Seq<(K, V)> { h.t@.s.subrange(self.a(h), self.b(h)) }
}
impl<'a, K, V> Walk<K, V, K> for Keys<'a, K, V> {
    open spec fn good(&self, h: &Heap<K, V>) -> bool { self.inner.ok(h) }
    open spec fn walk(&self, h: &Heap<K, V>) -> Seq<K> { ks_of(h.t@.s.subrange(self.inner.a(h), self.inner.b(h))) }
}
impl<'a, K, V> Walk<K, V, V> for Values<'a, K, V> {
    open spec fn good(&self, h: &Heap<K, V>) -> bool { self.inner.ok(h) }
    open spec fn walk(&self, h: &Heap<K, V>) -> Seq<V> { vs_of(h.t@.s.subrange(self.inner.a(h), self.inner.b(h))) }
}
impl<'a, X> fmt::DebugList<'a, X> {
    #[verifier::external_body]
    pub fn entries<K, V, W: Walk<K, V, X>>(self, it: W, h: &Heap<K, V>) -> (r: Self) requires it.good(h) ensures r.kind() == self.kind(), r.before() == self.before(), r.after() == self.after(), r.items() == self.items() + it.walk(h) { unimplemented!() }
}
impl<'a, K, V> Range<'a, K, V> {
    /// the entries from a up to b
    pub open spec fn spans(&self, h: &Heap<K, V>, a: int, b: int) -> bool { pos_is(&self.front, h, a) && pos_is(&self.back, h, b) && a <= b }
//@fn src/btree/map.rs | impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for Range<'_, K, V> | fmt | C13
//@  heap ref
//@  rw /\.entries\((self\.clone\(\))\)/ => .entries(\1, h)
    requires shape(h, &h.t@) && self.spans(h, pos(&self.front, h), pos(&self.back, h)),
    ensures (*final(f), r) == fmt::list_shown(*old(f), h.t@.s.subrange(pos(&self.front, h), pos(&self.back, h))),
//@body
    proof { assert(forall|x: Seq<(K, V)>| #[trigger] (Seq::<(K, V)>::empty() + x) =~= x); }
//@end
//@fn src/btree/map.rs | impl<'a, K, V> Range<'a, K, V> | next_unchecked | C13 C14
//@  probe loop
//@  heap ref
//@  sig /\(&'a K, &'a V\)/ => (RP<K>, RP<V>)
    requires shape(h, &h.t@), edge_in(&old(self).front, h), pos(&old(self).front, h) < h.t@.s.len(),
    ensures entry(r.0, r.1, h, pos(&old(self).front, h)), pos_is(&final(self).front, h, pos(&old(self).front, h) + 1), final(self).back == old(self).back,
//@body
    proof { lemma_up(h, self.front.node.node.a); if self.front.idx < self.front.node.nv(h).keys.len() { lemma_kvpos(h, self.front.node.node.a, self.front.idx as int); } }
//@loop 0
    invariant shape(h, &h.t@), self.back == old(self).back, cur_handle.node.in_tree(h), cur_handle.node.height > 0, cur_handle.idx <= cur_handle.node.nv(h).keys.len(),
        h.t@.end(h.n(cur_handle.node.node.a).edges[cur_handle.idx as int]) == pos(&old(self).front, h) && pos(&old(self).front, h) < h.t@.s.len(),
    decreases h.t@.ht(h.t@.root) - cur_handle.node.height,
//@at /match cur_handle\.right_kv/
 proof { lemma_up(h, cur_handle.node.node.a); lemma_down(h, cur_handle.node.node.a, cur_handle.idx as int);
    if cur_handle.idx < cur_handle.node.nv(h).keys.len() { lemma_kvpos(h, cur_handle.node.node.a, cur_handle.idx as int); lemma_down(h, cur_handle.node.node.a, cur_handle.idx + 1); } }
//@end
//@fn src/btree/map.rs | impl<'a, K, V> Iterator for Range<'a, K, V> | next | C13 C14
//@  heap ref
//@  sig /\(&'a K, &'a V\)/ => (RP<K>, RP<V>)
//@  rw /self\.front == self\.back/ => self.front.eq(&self.back)
    requires shape(h, &h.t@), old(self).spans(h, pos(&old(self).front, h), pos(&old(self).back, h)),
    ensures pos(&old(self).front, h) == pos(&old(self).back, h) ==> r is None && *final(self) == *old(self),
        pos(&old(self).front, h) < pos(&old(self).back, h) ==> r is Some && entry(r->Some_0.0, r->Some_0.1, h, pos(&old(self).front, h))
            && final(self).spans(h, pos(&old(self).front, h) + 1, pos(&old(self).back, h)),
//@body
    proof { lemma_up(h, self.front.node.node.a); lemma_up(h, self.back.node.node.a); if pos(&self.front, h) == pos(&self.back, h) { lemma_same_edge(h, self.front.node.node.a, self.front.idx as int, self.back.node.node.a, self.back.idx as int); } }
//@end
//@fn src/btree/map.rs | impl<'a, K, V> Range<'a, K, V> | next_back_unchecked | C13 C14
//@  probe loop
//@  heap ref
//@  sig /\(&'a K, &'a V\)/ => (RP<K>, RP<V>)
    requires shape(h, &h.t@), edge_in(&old(self).back, h), pos(&old(self).back, h) > 0,
    ensures entry(r.0, r.1, h, pos(&old(self).back, h) - 1), pos_is(&final(self).back, h, pos(&old(self).back, h) - 1), final(self).front == old(self).front,
//@body
    proof { lemma_up(h, self.back.node.node.a); if self.back.idx > 0 { lemma_kvpos(h, self.back.node.node.a, self.back.idx - 1); } }
//@loop 0
    invariant shape(h, &h.t@), self.front == old(self).front, cur_handle.node.in_tree(h), cur_handle.node.height > 0, cur_handle.idx <= cur_handle.node.nv(h).keys.len(),
        h.t@.off(h.n(cur_handle.node.node.a).edges[cur_handle.idx as int]) == pos(&old(self).back, h) && pos(&old(self).back, h) > 0,
    decreases h.t@.ht(h.t@.root) - cur_handle.node.height,
//@at /match cur_handle\.left_kv/
 proof { lemma_up(h, cur_handle.node.node.a); lemma_down(h, cur_handle.node.node.a, cur_handle.idx as int);
    if cur_handle.idx > 0 { lemma_kvpos(h, cur_handle.node.node.a, cur_handle.idx - 1); lemma_down(h, cur_handle.node.node.a, cur_handle.idx - 1); } }
//@end
//@fn src/btree/map.rs | impl<'a, K, V> DoubleEndedIterator for Range<'a, K, V> | next_back | C13 C14
//@  heap ref
//@  sig /\(&'a K, &'a V\)/ => (RP<K>, RP<V>)
//@  rw /self\.front == self\.back/ => self.front.eq(&self.back)
    requires shape(h, &h.t@), old(self).spans(h, pos(&old(self).front, h), pos(&old(self).back, h)),
    ensures pos(&old(self).front, h) == pos(&old(self).back, h) ==> r is None && *final(self) == *old(self),
        pos(&old(self).front, h) < pos(&old(self).back, h) ==> r is Some && entry(r->Some_0.0, r->Some_0.1, h, pos(&old(self).back, h) - 1)
            && final(self).spans(h, pos(&old(self).front, h), pos(&old(self).back, h) - 1),
//@body
    proof { lemma_up(h, self.front.node.node.a); lemma_up(h, self.back.node.node.a); if pos(&self.front, h) == pos(&self.back, h) { lemma_same_edge(h, self.front.node.node.a, self.front.idx as int, self.back.node.node.a, self.back.idx as int); } }
//@end
//@fn src/btree/map.rs | impl<K, V> Clone for Range<'_, K, V> | clone | C13
//@  sig /-> Self/ => -> Range<'a, K, V>
    ensures r == *self,
//@end
}
impl<'a, K, V> RangeMut<'a, K, V> {
    /// the entries from a up to b
    pub open spec fn spans(&self, h: &Heap<K, V>, a: int, b: int) -> bool { pos_is(&self.front, h, a) && pos_is(&self.back, h, b) && a <= b }
//@fn src/btree/map.rs | impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for RangeMut<'_, K, V> | fmt | C13
//@  heap ref
//@  rw /\.entries\(range\)/ => .entries(range, h)
    requires shape(h, &h.t@) && self.spans(h, pos(&self.front, h), pos(&self.back, h)),
    ensures (*final(f), r) == fmt::list_shown(*old(f), h.t@.s.subrange(pos(&self.front, h), pos(&self.back, h))),
//@body
    proof { assert(forall|x: Seq<(K, V)>| #[trigger] (Seq::<(K, V)>::empty() + x) =~= x); }
//@end
//@fn src/btree/map.rs | impl<'a, K, V> RangeMut<'a, K, V> | next_unchecked | C13 C14
//@  probe loop
//@  heap ref
//@  sig /\(&'a K, &'a mut V\)/ => (RP<K>, RP<V>)
//@  rw /ptr::read\(\s*(&\w+(?:\.\w+)?)\s*\)/ => vx_dup(\1)
    requires shape(h, &h.t@), edge_in(&old(self).front, h), pos(&old(self).front, h) < h.t@.s.len(),
    ensures entry(r.0, r.1, h, pos(&old(self).front, h)), pos_is(&final(self).front, h, pos(&old(self).front, h) + 1), final(self).back == old(self).back,
//@body
    proof { lemma_up(h, self.front.node.node.a); if self.front.idx < self.front.node.nv(h).keys.len() { lemma_kvpos(h, self.front.node.node.a, self.front.idx as int); } }
//@loop 0
    invariant shape(h, &h.t@), self.back == old(self).back, cur_handle.node.in_tree(h), cur_handle.node.height > 0, cur_handle.idx <= cur_handle.node.nv(h).keys.len(),
        h.t@.end(h.n(cur_handle.node.node.a).edges[cur_handle.idx as int]) == pos(&old(self).front, h) && pos(&old(self).front, h) < h.t@.s.len(),
    decreases h.t@.ht(h.t@.root) - cur_handle.node.height,
//@at /match cur_handle\.right_kv/
 proof { lemma_up(h, cur_handle.node.node.a); lemma_down(h, cur_handle.node.node.a, cur_handle.idx as int);
    if cur_handle.idx < cur_handle.node.nv(h).keys.len() { lemma_kvpos(h, cur_handle.node.node.a, cur_handle.idx as int); lemma_down(h, cur_handle.node.node.a, cur_handle.idx + 1); } }
//@end
//@fn src/btree/map.rs | impl<'a, K, V> Iterator for RangeMut<'a, K, V> | next | C13 C14
//@  heap ref
//@  sig /\(&'a K, &'a mut V\)/ => (RP<K>, RP<V>)
//@  rw /self\.front == self\.back/ => self.front.eq(&self.back)
    requires shape(h, &h.t@), old(self).spans(h, pos(&old(self).front, h), pos(&old(self).back, h)),
    ensures pos(&old(self).front, h) == pos(&old(self).back, h) ==> r is None && *final(self) == *old(self),
        pos(&old(self).front, h) < pos(&old(self).back, h) ==> r is Some && entry(r->Some_0.0, r->Some_0.1, h, pos(&old(self).front, h))
            && final(self).spans(h, pos(&old(self).front, h) + 1, pos(&old(self).back, h)),
//@body
    proof { lemma_up(h, self.front.node.node.a); lemma_up(h, self.back.node.node.a); if pos(&self.front, h) == pos(&self.back, h) { lemma_same_edge(h, self.front.node.node.a, self.front.idx as int, self.back.node.node.a, self.back.idx as int); } }
//@end
//@fn src/btree/map.rs | impl<'a, K, V> RangeMut<'a, K, V> | next_back_unchecked | C13 C14
//@  probe loop
//@  heap ref
//@  sig /\(&'a K, &'a mut V\)/ => (RP<K>, RP<V>)
//@  rw /ptr::read\(\s*(&\w+(?:\.\w+)?)\s*\)/ => vx_dup(\1)
    requires shape(h, &h.t@), edge_in(&old(self).back, h), pos(&old(self).back, h) > 0,
    ensures entry(r.0, r.1, h, pos(&old(self).back, h) - 1), pos_is(&final(self).back, h, pos(&old(self).back, h) - 1), final(self).front == old(self).front,
//@body
    proof { lemma_up(h, self.back.node.node.a); if self.back.idx > 0 { lemma_kvpos(h, self.back.node.node.a, self.back.idx - 1); } }
//@loop 0
    invariant shape(h, &h.t@), self.front == old(self).front, cur_handle.node.in_tree(h), cur_handle.node.height > 0, cur_handle.idx <= cur_handle.node.nv(h).keys.len(),
        h.t@.off(h.n(cur_handle.node.node.a).edges[cur_handle.idx as int]) == pos(&old(self).back, h) && pos(&old(self).back, h) > 0,
    decreases h.t@.ht(h.t@.root) - cur_handle.node.height,
//@at /match cur_handle\.left_kv/
 proof { lemma_up(h, cur_handle.node.node.a); lemma_down(h, cur_handle.node.node.a, cur_handle.idx as int);
    if cur_handle.idx > 0 { lemma_kvpos(h, cur_handle.node.node.a, cur_handle.idx - 1); lemma_down(h, cur_handle.node.node.a, cur_handle.idx - 1); } }
//@end
//@fn src/btree/map.rs | impl<'a, K, V> DoubleEndedIterator for RangeMut<'a, K, V> | next_back | C13 C14
//@  heap ref
//@  sig /\(&'a K, &'a mut V\)/ => (RP<K>, RP<V>)
//@  rw /self\.front == self\.back/ => self.front.eq(&self.back)
    requires shape(h, &h.t@), old(self).spans(h, pos(&old(self).front, h), pos(&old(self).back, h)),
    ensures pos(&old(self).front, h) == pos(&old(self).back, h) ==> r is None && *final(self) == *old(self),
        pos(&old(self).front, h) < pos(&old(self).back, h) ==> r is Some && entry(r->Some_0.0, r->Some_0.1, h, pos(&old(self).back, h) - 1)
            && final(self).spans(h, pos(&old(self).front, h), pos(&old(self).back, h) - 1),
//@body
    proof { lemma_up(h, self.front.node.node.a); lemma_up(h, self.back.node.node.a); if pos(&self.front, h) == pos(&self.back, h) { lemma_same_edge(h, self.front.node.node.a, self.front.idx as int, self.back.node.node.a, self.back.idx as int); } }
//@end
}
impl<'a, K, V> Iter<'a, K, V> {
    /// what is still to come: the entries from a up to b
    pub open spec fn left(&self, h: &Heap<K, V>, a: int, b: int) -> bool { self.range.spans(h, a, b) && self.length == b - a }
    pub open spec fn a(&self, h: &Heap<K, V>) -> int { pos(&self.range.front, h) }
    pub open spec fn b(&self, h: &Heap<K, V>) -> int { pos(&self.range.back, h) }
    pub open spec fn ok(&self, h: &Heap<K, V>) -> bool { shape(h, &h.t@) && self.left(h, self.a(h), self.b(h)) }
//@fn src/btree/map.rs | impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for Iter<'_, K, V> | fmt | C13
//@  heap ref
//@  rw /\.entries\((self\.clone\(\))\)/ => .entries(\1, h)
    requires self.ok(h),
    ensures (*final(f), r) == fmt::list_shown(*old(f), h.t@.s.subrange(self.a(h), self.b(h))),
//@body
    proof { assert(forall|x: Seq<(K, V)>| #[trigger] (Seq::<(K, V)>::empty() + x) =~= x); }
//@end
//@fn src/btree/map.rs | impl<'a, K: 'a, V: 'a> Iterator for Iter<'a, K, V> | next | C13
//@  heap ref
//@  sig /\(&'a K, &'a V\)/ => (RP<K>, RP<V>)
    requires old(self).ok(h),
    ensures old(self).a(h) == old(self).b(h) ==> r is None && *final(self) == *old(self),
        old(self).a(h) < old(self).b(h) ==> r is Some && entry(r->Some_0.0, r->Some_0.1, h, old(self).a(h)) && final(self).left(h, old(self).a(h) + 1, old(self).b(h)),
//@body
    proof { lemma_up(h, self.range.front.node.node.a); lemma_up(h, self.range.back.node.node.a); }
//@end
//@fn src/btree/map.rs | impl<'a, K: 'a, V: 'a> DoubleEndedIterator for Iter<'a, K, V> | next_back | C13
//@  heap ref
//@  sig /\(&'a K, &'a V\)/ => (RP<K>, RP<V>)
    requires old(self).ok(h),
    ensures old(self).a(h) == old(self).b(h) ==> r is None && *final(self) == *old(self),
        old(self).a(h) < old(self).b(h) ==> r is Some && entry(r->Some_0.0, r->Some_0.1, h, old(self).b(h) - 1) && final(self).left(h, old(self).a(h), old(self).b(h) - 1),
//@body
    proof { lemma_up(h, self.range.front.node.node.a); lemma_up(h, self.range.back.node.node.a); }
//@end
//@fn src/btree/map.rs | impl<'a, K: 'a, V: 'a> Iterator for Iter<'a, K, V> | size_hint | C13
    ensures r.0 == self.length, r.1 == Some(self.length),
//@end
//@fn src/btree/map.rs | impl<K, V> ExactSizeIterator for Iter<'_, K, V> | len | C13
//@  heap ref
    requires self.ok(h),
    ensures r == self.b(h) - self.a(h),
//@end
//@fn src/btree/map.rs | impl<K, V> Clone for Iter<'_, K, V> | clone | C13
//@  sig /-> Self/ => -> Iter<'a, K, V>
    ensures r == *self,
//@end
}
impl<'a, K, V> IterMut<'a, K, V> {
    /// what is still to come: the entries from a up to b
    pub open spec fn left(&self, h: &Heap<K, V>, a: int, b: int) -> bool { self.range.spans(h, a, b) && self.length == b - a }
    pub open spec fn a(&self, h: &Heap<K, V>) -> int { pos(&self.range.front, h) }
    pub open spec fn b(&self, h: &Heap<K, V>) -> int { pos(&self.range.back, h) }
    pub open spec fn ok(&self, h: &Heap<K, V>) -> bool { shape(h, &h.t@) && self.left(h, self.a(h), self.b(h)) }
//@fn src/btree/map.rs | impl<'a, K: 'a, V: 'a> Iterator for IterMut<'a, K, V> | next | C13
//@  heap ref
//@  sig /\(&'a K, &'a mut V\)/ => (RP<K>, RP<V>)
    requires old(self).ok(h),
    ensures old(self).a(h) == old(self).b(h) ==> r is None && *final(self) == *old(self),
        old(self).a(h) < old(self).b(h) ==> r is Some && entry(r->Some_0.0, r->Some_0.1, h, old(self).a(h)) && final(self).left(h, old(self).a(h) + 1, old(self).b(h)),
//@body
    proof { lemma_up(h, self.range.front.node.node.a); lemma_up(h, self.range.back.node.node.a); }
//@end
//@fn src/btree/map.rs | impl<'a, K: 'a, V: 'a> DoubleEndedIterator for IterMut<'a, K, V> | next_back | C13
//@  heap ref
//@  sig /\(&'a K, &'a mut V\)/ => (RP<K>, RP<V>)
    requires old(self).ok(h),
    ensures old(self).a(h) == old(self).b(h) ==> r is None && *final(self) == *old(self),
        old(self).a(h) < old(self).b(h) ==> r is Some && entry(r->Some_0.0, r->Some_0.1, h, old(self).b(h) - 1) && final(self).left(h, old(self).a(h), old(self).b(h) - 1),
//@body
    proof { lemma_up(h, self.range.front.node.node.a); lemma_up(h, self.range.back.node.node.a); }
//@end
//@fn src/btree/map.rs | impl<'a, K: 'a, V: 'a> Iterator for IterMut<'a, K, V> | size_hint | C13
    ensures r.0 == self.length, r.1 == Some(self.length),
//@end
//@fn src/btree/map.rs | impl<K, V> ExactSizeIterator for IterMut<'_, K, V> | len | C13
//@  heap ref
    requires self.ok(h),
    ensures r == self.b(h) - self.a(h),
//@end
}
impl<'a, K, V> Keys<'a, K, V> {
//@fn src/btree/map.rs | impl<K: fmt::Debug, V> fmt::Debug for Keys<'_, K, V> | fmt | C13
//@  heap ref
//@  rw /\.entries\((self\.clone\(\))\)/ => .entries(\1, h)
    requires self.inner.ok(h),
    ensures (*final(f), r) == fmt::list_shown(*old(f), ks_of(h.t@.s.subrange(self.inner.a(h), self.inner.b(h)))),
//@body
    proof { assert(forall|x: Seq<K>| #[trigger] (Seq::<K>::empty() + x) =~= x); }
//@end
//@fn src/btree/map.rs | impl<'a, K, V> Iterator for Keys<'a, K, V> | next | C13
//@  heap ref
//@  sig /Option<&'a K>/ => Option<RP<K>>
//@  rw /\.inner\.(next|next_back)\(\)/ => .inner.\1(h)
    requires old(self).inner.ok(h),
    ensures old(self).inner.a(h) == old(self).inner.b(h) ==> r is None && *final(self) == *old(self),
        old(self).inner.a(h) < old(self).inner.b(h) ==> r is Some && entry_k(r->Some_0, h, old(self).inner.a(h)) && final(self).inner.left(h, old(self).inner.a(h) + 1, old(self).inner.b(h)),
//@end
//@fn src/btree/map.rs | impl<'a, K, V> DoubleEndedIterator for Keys<'a, K, V> | next_back | C13
//@  heap ref
//@  sig /Option<&'a K>/ => Option<RP<K>>
//@  rw /\.inner\.(next|next_back)\(\)/ => .inner.\1(h)
    requires old(self).inner.ok(h),
    ensures old(self).inner.a(h) == old(self).inner.b(h) ==> r is None && *final(self) == *old(self),
        old(self).inner.a(h) < old(self).inner.b(h) ==> r is Some && entry_k(r->Some_0, h, old(self).inner.b(h) - 1) && final(self).inner.left(h, old(self).inner.a(h), old(self).inner.b(h) - 1),
//@end
//@fn src/btree/map.rs | impl<'a, K, V> Iterator for Keys<'a, K, V> | size_hint | C13
    ensures r.0 == self.inner.length, r.1 == Some(self.inner.length),
//@end
//@fn src/btree/map.rs | impl<K, V> ExactSizeIterator for Keys<'_, K, V> | len | C13
//@  heap ref
    requires self.inner.ok(h),
    ensures r == self.inner.b(h) - self.inner.a(h),
//@end
//@fn src/btree/map.rs | impl<K, V> Clone for Keys<'_, K, V> | clone | C13
//@  sig /-> Self/ => -> Keys<'a, K, V>
    ensures r == *self,
//@end
}
impl<'a, K, V> Values<'a, K, V> {
//@fn src/btree/map.rs | impl<K, V: fmt::Debug> fmt::Debug for Values<'_, K, V> | fmt | C13
//@  heap ref
//@  rw /\.entries\((self\.clone\(\))\)/ => .entries(\1, h)
    requires self.inner.ok(h),
    ensures (*final(f), r) == fmt::list_shown(*old(f), vs_of(h.t@.s.subrange(self.inner.a(h), self.inner.b(h)))),
//@body
    proof { assert(forall|x: Seq<V>| #[trigger] (Seq::<V>::empty() + x) =~= x); }
//@end
//@fn src/btree/map.rs | impl<'a, K, V> Iterator for Values<'a, K, V> | next | C13
//@  heap ref
//@  sig /Option<&'a V>/ => Option<RP<V>>
//@  rw /\.inner\.(next|next_back)\(\)/ => .inner.\1(h)
    requires old(self).inner.ok(h),
    ensures old(self).inner.a(h) == old(self).inner.b(h) ==> r is None && *final(self) == *old(self),
        old(self).inner.a(h) < old(self).inner.b(h) ==> r is Some && entry_v(r->Some_0, h, old(self).inner.a(h)) && final(self).inner.left(h, old(self).inner.a(h) + 1, old(self).inner.b(h)),
//@end
//@fn src/btree/map.rs | impl<'a, K, V> DoubleEndedIterator for Values<'a, K, V> | next_back | C13
//@  heap ref
//@  sig /Option<&'a V>/ => Option<RP<V>>
//@  rw /\.inner\.(next|next_back)\(\)/ => .inner.\1(h)
    requires old(self).inner.ok(h),
    ensures old(self).inner.a(h) == old(self).inner.b(h) ==> r is None && *final(self) == *old(self),
        old(self).inner.a(h) < old(self).inner.b(h) ==> r is Some && entry_v(r->Some_0, h, old(self).inner.b(h) - 1) && final(self).inner.left(h, old(self).inner.a(h), old(self).inner.b(h) - 1),
//@end
//@fn src/btree/map.rs | impl<'a, K, V> Iterator for Values<'a, K, V> | size_hint | C13
    ensures r.0 == self.inner.length, r.1 == Some(self.inner.length),
//@end
//@fn src/btree/map.rs | impl<K, V> ExactSizeIterator for Values<'_, K, V> | len | C13
//@  heap ref
    requires self.inner.ok(h),
    ensures r == self.inner.b(h) - self.inner.a(h),
//@end
//@fn src/btree/map.rs | impl<K, V> Clone for Values<'_, K, V> | clone | C13
//@  sig /-> Self/ => -> Values<'a, K, V>
    ensures r == *self,
//@end
}
impl<'a, K, V> ValuesMut<'a, K, V> {
//@fn src/btree/map.rs | impl<'a, K, V> Iterator for ValuesMut<'a, K, V> | next | C13
//@  heap ref
//@  sig /Option<&'a mut V>/ => Option<RP<V>>
//@  rw /\.inner\.(next|next_back)\(\)/ => .inner.\1(h)
    requires old(self).inner.ok(h),
    ensures old(self).inner.a(h) == old(self).inner.b(h) ==> r is None && *final(self) == *old(self),
        old(self).inner.a(h) < old(self).inner.b(h) ==> r is Some && entry_v(r->Some_0, h, old(self).inner.a(h)) && final(self).inner.left(h, old(self).inner.a(h) + 1, old(self).inner.b(h)),
//@end
//@fn src/btree/map.rs | impl<'a, K, V> DoubleEndedIterator for ValuesMut<'a, K, V> | next_back | C13
//@  heap ref
//@  sig /Option<&'a mut V>/ => Option<RP<V>>
//@  rw /\.inner\.(next|next_back)\(\)/ => .inner.\1(h)
    requires old(self).inner.ok(h),
    ensures old(self).inner.a(h) == old(self).inner.b(h) ==> r is None && *final(self) == *old(self),
        old(self).inner.a(h) < old(self).inner.b(h) ==> r is Some && entry_v(r->Some_0, h, old(self).inner.b(h) - 1) && final(self).inner.left(h, old(self).inner.a(h), old(self).inner.b(h) - 1),
//@end
//@fn src/btree/map.rs | impl<'a, K, V> Iterator for ValuesMut<'a, K, V> | size_hint | C13
    ensures r.0 == self.inner.length, r.1 == Some(self.inner.length),
//@end
//@fn src/btree/map.rs | impl<K, V> ExactSizeIterator for ValuesMut<'_, K, V> | len | C13
//@  heap ref
    requires self.inner.ok(h),
    ensures r == self.inner.b(h) - self.inner.a(h),
//@end
}
// ---- ranges ----
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
use Bound::*;
/// a range of keys, as RangeBounds gives it
pub trait RangeBounds<T: ?Sized> {
    spec fn lo(&self) -> Bound<int>;
    spec fn hi(&self) -> Bound<int>;
    fn start_bound(&self) -> (r: Bound<&T>) ensures bnd(r) == self.lo();
    fn end_bound(&self) -> (r: Bound<&T>) ensures bnd(r) == self.hi();
}
pub open spec fn bnd<T: ?Sized>(b: Bound<&T>) -> Bound<int> {
    match b { Included(q) => Included(qrank(q)), Excluded(q) => Excluded(qrank(q)), Unbounded => Unbounded }
}
/// T's == and > (assumed to agree with its Ord)
#[verifier::external_body]
pub fn vx_eq<T: ?Sized>(a: &T, b: &T) -> (r: bool) ensures r == (qrank(a) == qrank(b)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gt<T: ?Sized>(a: &T, b: &T) -> (r: bool) ensures r == (qrank(a) > qrank(b)) { unimplemented!() }
/// the ranges that BTreeMap rejects with a panic
pub open spec fn no_range(lo: Bound<int>, hi: Bound<int>) -> bool {
    match (lo, hi) {
        (Excluded(s), Excluded(e)) => s >= e,
        (Included(s), Included(e)) => s > e,
        (Included(s), Excluded(e)) => s > e,
        (Excluded(s), Included(e)) => s > e,
        _ => false,
    }
}
/// the documented panic, only for such a range
#[verifier::external_body]
pub fn vx_panic<T>(Ghost(bad): Ghost<bool>) -> (r: T) requires bad ensures false { panic!() }
/// the entries from i on are those the lower bound admits
pub open spec fn from_ok<K, V>(s: Seq<(K, V)>, lo: Bound<int>, i: int) -> bool {
    &&& 0 <= i <= s.len()
    &&& forall|j: int| 0 <= j < i ==> !above(lo, krank((#[trigger] s[j]).0))
    &&& forall|j: int| i <= j < s.len() ==> above(lo, krank((#[trigger] s[j]).0))
}
/// the entries before i are those the upper bound admits
pub open spec fn to_ok<K, V>(s: Seq<(K, V)>, hi: Bound<int>, i: int) -> bool {
    &&& 0 <= i <= s.len()
    &&& forall|j: int| 0 <= j < i ==> under(hi, krank((#[trigger] s[j]).0))
    &&& forall|j: int| i <= j < s.len() ==> !under(hi, krank((#[trigger] s[j]).0))
}
pub open spec fn above(lo: Bound<int>, k: int) -> bool { match lo { Included(q) => q <= k, Excluded(q) => q < k, Unbounded => true } }
pub open spec fn under(hi: Bound<int>, k: int) -> bool { match hi { Included(q) => k <= q, Excluded(q) => k < q, Unbounded => true } }
pub proof fn lemma_from<K, V>(s: Seq<(K, V)>, lo: Bound<int>) -> (i: int)
    requires sorted(s),
    ensures from_ok(s, lo, i),
    decreases s.len(),
{
    if s.len() == 0 { 0 } else {
        let n = s.len() - 1;
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies krank((#[trigger] d[i]).0) < krank((#[trigger] d[j]).0) by { assert(d[i] == s[i] && d[j] == s[j]); }
        let i = lemma_from(d, lo);
        assert forall|j: int| 0 <= j < n implies #[trigger] s[j] == d[j] by { }
        if above(lo, krank(s[n].0)) { i } else {
            assert forall|j: int| 0 <= j < n implies !above(lo, krank((#[trigger] s[j]).0)) by { assert(krank(s[j].0) < krank(s[n].0)); }
            s.len() as int
        }
    }
}
pub proof fn lemma_to<K, V>(s: Seq<(K, V)>, hi: Bound<int>) -> (i: int)
    requires sorted(s),
    ensures to_ok(s, hi, i),
    decreases s.len(),
{
    if s.len() == 0 { 0 } else {
        let n = s.len() - 1;
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies krank((#[trigger] d[i]).0) < krank((#[trigger] d[j]).0) by { assert(d[i] == s[i] && d[j] == s[j]); }
        let i = lemma_to(d, hi);
        assert forall|j: int| 0 <= j < n implies #[trigger] s[j] == d[j] by { }
        if under(hi, krank(s[n].0)) {
            assert forall|j: int| 0 <= j < n implies under(hi, krank((#[trigger] s[j]).0)) by { assert(krank(s[j].0) < krank(s[n].0)); }
            s.len() as int
        } else { i }
    }
}
pub proof fn lemma_from_to<K, V>(s: Seq<(K, V)>, lo: Bound<int>, hi: Bound<int>, a: int, b: int)
    requires from_ok(s, lo, a), to_ok(s, hi, b), !no_range(lo, hi),
    ensures a <= b,
{
    if b < a { assert(!under(hi, krank(s[b].0))); assert(!above(lo, krank(s[b].0))); }
}
/// Descending towards the lower end: what is known at the node p. `f`: the bound itself was met above.
pub open spec fn at_lo<K, V>(h: &Heap<K, V>, p: usize, lo: Bound<int>, f: bool, a: int) -> bool {
    match lo {
        Unbounded => a == 0 && h.t@.off(p) == 0,
        Included(q) => if f { a == h.t@.end(p) } else { below(h, p, q) && h.t@.off(p) <= a <= h.t@.end(p) },
        Excluded(q) => if f { a == h.t@.off(p) } else { below(h, p, q) && h.t@.off(p) <= a <= h.t@.end(p) },
    }
}
pub open spec fn at_hi<K, V>(h: &Heap<K, V>, p: usize, hi: Bound<int>, f: bool, b: int) -> bool {
    match hi {
        Unbounded => b == h.t@.s.len() && h.t@.end(p) == b,
        Included(q) => if f { b == h.t@.off(p) } else { below(h, p, q) && h.t@.off(p) <= b <= h.t@.end(p) },
        Excluded(q) => if f { b == h.t@.end(p) } else { below(h, p, q) && h.t@.off(p) <= b <= h.t@.end(p) },
    }
}
/// which edge leads on, and whether the bound has been met
pub open spec fn lo_edge<K, V>(h: &Heap<K, V>, p: usize, lo: Bound<int>, f: bool, i: int, g: bool) -> bool {
    let ks = h.n(p).keys;
    match lo {
        Unbounded => i == 0 && g == f,
        Included(q) => if f { i == ks.len() && g } else { found(ks, q, i, g) },
        Excluded(q) => if f { i == 0 && g } else { found(ks, q, if g { i - 1 } else { i }, g) },
    }
}
pub open spec fn hi_edge<K, V>(h: &Heap<K, V>, p: usize, hi: Bound<int>, f: bool, i: int, g: bool) -> bool {
    let ks = h.n(p).keys;
    match hi {
        Unbounded => i == ks.len() && g == f,
        Included(q) => if f { i == 0 && g } else { found(ks, q, if g { i - 1 } else { i }, g) },
        Excluded(q) => if f { i == ks.len() && g } else { found(ks, q, i, g) },
    }
}
pub proof fn lemma_at<K, V>(h: &Heap<K, V>, p: usize, q: int, i: int, lo: Bound<int>, hi: Bound<int>, a: int, b: int)
    requires shape(h, &h.t@), sorted(h.t@.s), h.t@.fp.contains(p), below(h, p, q), found(h.n(p).keys, q, i, false),
    ensures edge_for(h, p, i, q),
        !h.n(p).leaf && from_ok(h.t@.s, lo, a) && (lo == Bound::Included(q) || lo == Bound::Excluded(q)) ==> h.t@.off(h.n(p).edges[i]) <= a <= h.t@.end(h.n(p).edges[i]),
        !h.n(p).leaf && to_ok(h.t@.s, hi, b) && (hi == Bound::Included(q) || hi == Bound::Excluded(q)) ==> h.t@.off(h.n(p).edges[i]) <= b <= h.t@.end(h.n(p).edges[i]),
        h.n(p).leaf && from_ok(h.t@.s, lo, a) && (lo == Bound::Included(q) || lo == Bound::Excluded(q)) ==> h.t@.off(p) + i == a,
        h.n(p).leaf && to_ok(h.t@.s, hi, b) && (hi == Bound::Included(q) || hi == Bound::Excluded(q)) ==> h.t@.off(p) + i == b,
{
    lemma_edge_for(h, p, i, q);
    assert(node_ok(h, &h.t@, p));
    let s = h.t@.s;
    let (x, y) = if h.n(p).leaf { (h.t@.off(p) + i, h.t@.off(p) + i) } else { lemma_down(h, p, i); (h.t@.off(h.n(p).edges[i]), h.t@.end(h.n(p).edges[i])) };
    assert(forall|j: int| 0 <= j < x ==> krank((#[trigger] s[j]).0) < q);
    assert(forall|j: int| y <= j < s.len() ==> q < krank((#[trigger] s[j]).0));
    if from_ok(s, lo, a) && (lo == Bound::Included(q) || lo == Bound::Excluded(q)) {
        if a < x { assert(krank(s[a].0) < q); }
        if a > y { assert(q < krank(s[y].0)); }
    }
    if to_ok(s, hi, b) && (hi == Bound::Included(q) || hi == Bound::Excluded(q)) {
        if b < x { assert(krank(s[b].0) < q); }
        if b > y { assert(q < krank(s[y].0)); }
    }
}
/// the step down, or the end, on the lower side
pub proof fn lemma_lo<K, V>(h: &Heap<K, V>, p: usize, lo: Bound<int>, f: bool, i: int, g: bool, a: int)
    requires tree(h, &h.t@), h.t@.fp.contains(p), from_ok(h.t@.s, lo, a), at_lo(h, p, lo, f, a), lo_edge(h, p, lo, f, i, g),
    ensures h.n(p).leaf ==> h.t@.off(p) + i == a, !h.n(p).leaf ==> at_lo(h, h.n(p).edges[i], lo, g, a), 0 <= i <= h.n(p).keys.len(),
        !h.n(p).leaf ==> h.t@.off(h.n(p).edges[i]) <= a <= h.t@.end(h.n(p).edges[i]),
{
    let t = h.t@; let s = t.s;
    assert(node_ok(h, &t, p));
    if !f && g && !(lo is Unbounded) {
        let (k, q) = match lo { Included(q) => (i, q), Excluded(q) => (i - 1, q), Unbounded => (0, 0) };
        lemma_kvpos(h, p, k);
        let e = kvpos(h, &t, p, k);
        assert(krank(s[e].0) == q);
        if lo is Included { if a < e { assert(above(lo, krank(s[a].0))); } if a > e { } assert(a == e); }
        else { if a <= e { assert(above(lo, krank(s[e].0))); } if a > e + 1 { assert(!above(lo, krank(s[e + 1].0))); } assert(a == e + 1); }
    } else if !f {
        match lo { Included(q) => { lemma_at(h, p, q, i, lo, Bound::Unbounded, a, 0); } Excluded(q) => { lemma_at(h, p, q, i, lo, Bound::Unbounded, a, 0); } Unbounded => { } }
    }
    if !h.n(p).leaf { lemma_down(h, p, i); }
}
pub proof fn lemma_hi<K, V>(h: &Heap<K, V>, p: usize, hi: Bound<int>, f: bool, i: int, g: bool, b: int)
    requires tree(h, &h.t@), h.t@.fp.contains(p), to_ok(h.t@.s, hi, b), at_hi(h, p, hi, f, b), hi_edge(h, p, hi, f, i, g),
    ensures h.n(p).leaf ==> h.t@.off(p) + i == b, !h.n(p).leaf ==> at_hi(h, h.n(p).edges[i], hi, g, b), 0 <= i <= h.n(p).keys.len(),
        !h.n(p).leaf ==> h.t@.off(h.n(p).edges[i]) <= b <= h.t@.end(h.n(p).edges[i]),
{
    let t = h.t@; let s = t.s;
    assert(node_ok(h, &t, p));
    if !f && g && !(hi is Unbounded) {
        let (k, q) = match hi { Excluded(q) => (i, q), Included(q) => (i - 1, q), Unbounded => (0, 0) };
        lemma_kvpos(h, p, k);
        let e = kvpos(h, &t, p, k);
        assert(krank(s[e].0) == q);
        if hi is Excluded { if b < e { assert(!under(hi, krank(s[b].0))); } if b > e { assert(under(hi, krank(s[e].0))); } assert(b == e); }
        else { if b <= e { assert(!under(hi, krank(s[e].0))); } if b > e + 1 { assert(under(hi, krank(s[e + 1].0))); } assert(b == e + 1); }
    } else if !f {
        match hi { Included(q) => { lemma_at(h, p, q, i, Bound::Unbounded, hi, 0, b); } Excluded(q) => { lemma_at(h, p, q, i, Bound::Unbounded, hi, 0, b); } Unbounded => { } }
    }
    if !h.n(p).leaf { lemma_down(h, p, i); }
}
/// while both sides are at the same node, the edges are in order
pub proof fn lemma_order<K, V>(h: &Heap<K, V>, p: usize, lo: Bound<int>, hi: Bound<int>, f: bool, f2: bool, i: int, j: int, g: bool, g2: bool, a: int, b: int)
    requires tree(h, &h.t@), h.t@.fp.contains(p), from_ok(h.t@.s, lo, a), at_lo(h, p, lo, f, a), lo_edge(h, p, lo, f, i, g),
        to_ok(h.t@.s, hi, b), at_hi(h, p, hi, f2, b), hi_edge(h, p, hi, f2, j, g2), a <= b,
    ensures i <= j,
{
    lemma_lo(h, p, lo, f, i, g, a); lemma_hi(h, p, hi, f2, j, g2, b);
    assert(node_ok(h, &h.t@, p));
    if !h.n(p).leaf && j < i { lemma_siblings(h, &h.t@, p, j, i); }
}
pub proof fn lemma_lo_root<K, V>(h: &Heap<K, V>, lo: Bound<int>, hi: Bound<int>, a: int, b: int)
    requires tree(h, &h.t@), from_ok(h.t@.s, lo, a), to_ok(h.t@.s, hi, b),
    ensures at_lo(h, h.t@.root, lo, false, a), at_hi(h, h.t@.root, hi, false, b), node_ok(h, &h.t@, h.t@.root),
{
    let s = h.t@.s;
    if lo is Unbounded && a > 0 { assert(!above(lo, krank(s[0].0))); }
    if hi is Unbounded && b < s.len() { assert(!under(hi, krank(s[b].0))); }
    assert(node_ok(h, &h.t@, h.t@.root));
}
pub proof fn lemma_ends<K, V>(h: &Heap<K, V>, lo: Bound<int>, hi: Bound<int>) -> (r: (int, int))
    requires tree(h, &h.t@),
    ensures from_ok(h.t@.s, lo, r.0), to_ok(h.t@.s, hi, r.1), at_lo(h, h.t@.root, lo, false, r.0), at_hi(h, h.t@.root, hi, false, r.1),
{
    let a = lemma_from(h.t@.s, lo); let b = lemma_to(h.t@.s, hi);
    lemma_lo_root(h, lo, hi, a, b);
    (a, b)
}
/// one step down on both sides
pub proof fn lemma_step<K, V>(h: &Heap<K, V>, p: usize, p2: usize, lo: Bound<int>, hi: Bound<int>, f: bool, f2: bool, i: int, j: int, g: bool, g2: bool, a: int, b: int)
    requires tree(h, &h.t@), h.t@.fp.contains(p), h.t@.fp.contains(p2), from_ok(h.t@.s, lo, a), at_lo(h, p, lo, f, a), lo_edge(h, p, lo, f, i, g),
        to_ok(h.t@.s, hi, b), at_hi(h, p2, hi, f2, b), hi_edge(h, p2, hi, f2, j, g2), a <= b, h.t@.ht(p) == h.t@.ht(p2),
    ensures p == p2 ==> i <= j, 0 <= i <= h.n(p).keys.len(), 0 <= j <= h.n(p2).keys.len(),
        h.t@.ht(p) == 0 ==> h.t@.off(p) + i == a && h.t@.off(p2) + j == b,
        h.t@.ht(p) > 0 ==> at_lo(h, h.n(p).edges[i], lo, g, a) && at_hi(h, h.n(p2).edges[j], hi, g2, b)
            && h.es@[p][i] is Some && h.t@.fp.contains(h.n(p).edges[i]) && h.t@.ht(h.n(p).edges[i]) == h.t@.ht(p) - 1
            && h.es@[p2][j] is Some && h.t@.fp.contains(h.n(p2).edges[j]) && h.t@.ht(h.n(p2).edges[j]) == h.t@.ht(p) - 1,
{
    assert(node_ok(h, &h.t@, p)); assert(node_ok(h, &h.t@, p2));
    lemma_lo(h, p, lo, f, i, g, a); lemma_hi(h, p2, hi, f2, j, g2, b);
    if p == p2 { lemma_order(h, p, lo, hi, f, f2, i, j, g, g2, a, b); }
    if h.t@.ht(p) > 0 { lemma_down(h, p, i); lemma_down(h, p2, j); }
}
pub proof fn lemma_node<K, V>(h: &Heap<K, V>, p: usize)
    requires tree(h, &h.t@), h.t@.fp.contains(p),
    ensures h.wf(), h.live(p), h.n(p).ok, h.n(p).leaf == (h.t@.ht(p) == 0), h.n(p).keys.len() <= 11, p == SHARED ==> h.n(p).leaf, h.t@.ht(p) >= 0,
{ assert(node_ok(h, &h.t@, p)); }
#[verifier::loop_isolation(false)]
#[verifier::spinoff_prover]
//@fn src/btree/map.rs | | range_search | C14
//@  probe loop
//@  heap ref
//@  rw /\bsearch::/ => 
//@  rw /if s == e\b/ => if vx_eq(s, e)
//@  rw /if s > e\b/ => if vx_gt(s, e)
//@  rw /panic!\("range[^"]*"\)/ => return vx_panic(Ghost(no_range(range.lo(), range.hi())))
//@  rw /panic!\("Ord[^"]*"\)\s*;?/ => vx_unreachable();
//@  rw /unreachable!\("[^"]*"\)/ => { vx_unreachable(); return vx_never(); }
    requires tree(h, &h.t@), root1.in_tree(h), root2.in_tree(h), root1.node.a == h.t@.root, root2.node.a == h.t@.root,
    ensures !no_range(range.lo(), range.hi()),
        edge_in(&r.0, h), edge_in(&r.1, h),
        from_ok(h.t@.s, range.lo(), pos(&r.0, h)), to_ok(h.t@.s, range.hi(), pos(&r.1, h)), pos(&r.0, h) <= pos(&r.1, h),
//@body
    hide(tree); hide(from_ok); hide(to_ok); hide(at_lo); hide(at_hi);
let ghost lo = range.lo(); let ghost hi = range.hi();
    let ghost mut a: int = 0; let ghost mut b: int = 0;
    proof { let (x, y) = lemma_ends(h, lo, hi); a = x; b = y; }
//@at /let mut min_node/
 proof { lemma_from_to(h.t@.s, lo, hi, a, b); }
//@loop 0
    invariant min_node.in_tree(h), max_node.in_tree(h), min_node.height == max_node.height,
        at_lo(h, min_node.node.a, lo, min_found, a), at_hi(h, max_node.node.a, hi, max_found, b),
        !diverged ==> min_node.node == max_node.node,
    decreases min_node.height,
//@at /let min_edge =/
 let ghost f0 = min_found; let ghost f1 = max_found;
    proof { lemma_node(h, min_node.node.a); lemma_node(h, max_node.node.a); }
//@at /let max_edge =/
 assert(lo_edge(h, min_node.node.a, lo, f0, min_edge as int, min_found));
//@at /if !diverged/
 assert(hi_edge(h, max_node.node.a, hi, f1, max_edge as int, max_found));
    proof { lemma_step(h, min_node.node.a, max_node.node.a, lo, hi, f0, f1, min_edge as int, max_edge as int, min_found, max_found, a, b); }
//@end
pub struct BTreeMap<K, V> { pub root: Root<K, V>, pub length: usize }
impl<K, V> BTreeMap<K, V> {
    /// the map and the heap's tree belong together
    pub open spec fn ok(&self, h: &Heap<K, V>) -> bool {
        tree(h, &h.t@) && self.root.node.ptr.a == h.t@.root && self.root.height == h.t@.ht(h.t@.root) && self.length == h.t@.s.len()
    }
    /// where q is among the keys
    pub open spec fn has(h: &Heap<K, V>, q: int) -> bool { exists|i: int| 0 <= i < h.t@.s.len() && krank((#[trigger] h.t@.s[i]).0) == q }
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | get | C11 C13
//@  heap ref
//@  rw /\bsearch::/ => 
//@  sig /&V\b/ => RP<V>
    requires self.ok(h),
    ensures match r { Some(x) => exists|i: int| entry_v(x, h, i) && krank((#[trigger] h.t@.s[i]).0) == qrank(key), None => !Self::has(h, qrank(key)) },
//@body
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | get_key_value | C11 C13
//@  heap ref
//@  rw /\bsearch::/ => 
//@  sig /\(&K, &V\)/ => (RP<K>, RP<V>)
    requires self.ok(h),
    ensures match r { Some(x) => exists|i: int| entry(x.0, x.1, h, i) && krank((#[trigger] h.t@.s[i]).0) == qrank(k), None => !Self::has(h, qrank(k)) },
//@body
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | get_mut | C11 C13
//@  heap ref
//@  rw /\bsearch::/ => 
//@  sig /&mut V\b/ => RP<V>
    requires old(self).ok(h),
    ensures match r { Some(x) => exists|i: int| entry_v(x, h, i) && krank((#[trigger] h.t@.s[i]).0) == qrank(key), None => !Self::has(h, qrank(key)) },
//@body
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | contains_key | C11 C13
//@  heap ref
//@  rw /self\.get\(key\)/ => self.get(key, h)
    requires self.ok(h),
    ensures r == Self::has(h, qrank(key)),
//@end
//@fn src/btree/map.rs | impl<K, V> BTreeMap<K, V> | len | C11
//@  heap ref
    requires self.ok(h),
    ensures r == h.t@.s.len(),
//@end
//@fn src/btree/map.rs | impl<K, V> BTreeMap<K, V> | is_empty | C11
//@  heap ref
    requires self.ok(h),
    ensures r == (h.t@.s.len() == 0),
//@end
//@fn src/btree/map.rs | impl<K, V> BTreeMap<K, V> | iter | C13
//@  heap ref
    requires self.ok(h),
    ensures r.left(h, 0, h.t@.s.len() as int),
//@end
//@fn src/btree/map.rs | impl<K, V> BTreeMap<K, V> | iter_mut | C13
//@  heap ref
//@  rw /ptr::read\((&root1)\)/ => vx_dup(\1)
    requires old(self).ok(h),
    ensures r.left(h, 0, h.t@.s.len() as int),
//@end
//@fn src/btree/map.rs | impl<'a, K: 'a, V: 'a> IntoIterator for &'a BTreeMap<K, V> | into_iter | C13
//@  as into_iter_ref
//@  heap ref
//@  sig /\(self\) -> Iter/ => <'a>(&'a self) -> Iter
//@  rw /self\.iter\(\)/ => self.iter(h)
    requires self.ok(h),
    ensures r.left(h, 0, h.t@.s.len() as int),
//@end
//@fn src/btree/map.rs | impl<'a, K: 'a, V: 'a> IntoIterator for &'a mut BTreeMap<K, V> | into_iter | C13
//@  as into_iter_mut
//@  heap ref
//@  sig /\(self\) -> IterMut/ => <'a>(&'a mut self) -> IterMut
//@  rw /self\.iter_mut\(\)/ => self.iter_mut(h)
    requires old(self).ok(h),
    ensures r.left(h, 0, h.t@.s.len() as int),
//@end
//@fn src/btree/map.rs | impl<K, V> BTreeMap<K, V> | keys | C13
//@  heap ref
//@  rw /self\.iter\(\)/ => self.iter(h)
    requires self.ok(h),
    ensures r.inner.left(h, 0, h.t@.s.len() as int),
//@end
//@fn src/btree/map.rs | impl<K, V> BTreeMap<K, V> | values | C13
//@  heap ref
//@  rw /self\.iter\(\)/ => self.iter(h)
    requires self.ok(h),
    ensures r.inner.left(h, 0, h.t@.s.len() as int),
//@end
//@fn src/btree/map.rs | impl<K, V> BTreeMap<K, V> | values_mut | C13
//@  heap ref
//@  rw /self\.iter_mut\(\)/ => self.iter_mut(h)
    requires old(self).ok(h),
    ensures r.inner.left(h, 0, h.t@.s.len() as int),
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | range | C14
//@  heap ref
    requires self.ok(h),
    ensures !no_range(range.lo(), range.hi()), r.spans(h, pos(&r.front, h), pos(&r.back, h)), from_ok(h.t@.s, range.lo(), pos(&r.front, h)), to_ok(h.t@.s, range.hi(), pos(&r.back, h)),
//@body
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | range_mut | C14
//@  heap ref
//@  rw /ptr::read\((&root1)\)/ => vx_dup(\1)
    requires old(self).ok(h),
    ensures !no_range(range.lo(), range.hi()), r.spans(h, pos(&r.front, h), pos(&r.back, h)), from_ok(h.t@.s, range.lo(), pos(&r.front, h)), to_ok(h.t@.s, range.hi(), pos(&r.back, h)),
//@body
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@end
}
}
fn main() {}
