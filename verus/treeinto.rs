// A map taken apart: the iterator that owns it, and dropping either. src/btree/map.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
use core::borrow::Borrow;
verus! {
//@assume treesplit.rs
//@threads next next_back into_iter drop deallocate_and_ascend first_leaf_edge last_leaf_edge clear
use ForceResult::*;
/// o is the heap when the iteration began: the nodes that lie behind the two ends are gone, those between are as they were.
pub struct IntoIter<K, V> { pub front: Handle<NodeRef<marker::Owned, K, V, marker::Leaf>, marker::Edge>, pub back: Handle<NodeRef<marker::Owned, K, V, marker::Leaf>, marker::Edge>, pub length: usize, pub o: Ghost<Heap<K, V>> }
pub open spec fn gone<K, V>(t: &Tree<K, V>, x: int, k: int, y: int, m: int, q: usize) -> bool { t.end(q) < x || t.end(q) == x && t.ht(q) < k || t.off(q) > y || t.off(q) == y && t.ht(q) < m }
pub open spec fn remain<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, x: int, k: int, y: int, m: int) -> bool {
    &&& h.wf() && h.t == o.t
    &&& forall|q: usize| #[trigger] h.dom().contains(q) == (o.dom().contains(q) && !(o.t@.fp.contains(q) && gone(&o.t@, x, k, y, m, q)))
    &&& forall|q: usize| h.live(q) ==> #[trigger] h.n(q) == o.n(q)
}
impl<K, V> IntoIter<K, V> {
    /// the entries from a up to b are left
    pub open spec fn left(&self, h: &Heap<K, V>, a: int, b: int) -> bool {
        let o = self.o@;
        &&& shape(&o, &o.t@) && pos_is(&self.front, &o, a) && pos_is(&self.back, &o, b) && a <= b && self.length == b - a
        &&& remain(&o, h, o.t@.end(self.front.node.node.a), 0, o.t@.off(self.back.node.node.a), 0)
    }
    pub open spec fn a(&self) -> int { pos(&self.front, &self.o@) }
    pub open spec fn b(&self) -> int { pos(&self.back, &self.o@) }
}
/// a node lies within another that is higher, or apart from it
pub proof fn lemma_nested<K, V>(h: &Heap<K, V>, a: usize, b: usize)
    requires shape(h, &h.t@), h.t@.fp.contains(a), h.t@.fp.contains(b), h.t@.ht(a) <= h.t@.ht(b),
    ensures h.t@.end(a) < h.t@.off(b) || h.t@.end(b) < h.t@.off(a) || h.t@.off(b) <= h.t@.off(a) && h.t@.end(a) <= h.t@.end(b), node_ok(h, &h.t@, a), node_ok(h, &h.t@, b),
    decreases h.t@.ht(b) - h.t@.ht(a),
{
    assert(node_ok(h, &h.t@, a) && node_ok(h, &h.t@, b));
    if h.t@.ht(a) == h.t@.ht(b) { if a != b { lemma_apart(h, &h.t@, a, b); } }
    else { lemma_up(h, a); let u = h.n(a).parent; lemma_inside(h, &h.t@, u, h.n(a).pidx); lemma_nested(h, u, b); }
}
/// where the ends are, and that their nodes are there
pub proof fn lemma_both_ends<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, f: usize, b: usize, i: int, j: int)
    requires shape(o, &o.t@), o.t@.fp.contains(f), o.t@.fp.contains(b), o.t@.ht(f) == 0, o.t@.ht(b) == 0, 0 <= i <= o.n(f).keys.len(), 0 <= j <= o.n(b).keys.len(), o.t@.off(f) + i <= o.t@.off(b) + j,
        remain(o, h, o.t@.end(f), 0, o.t@.off(b), 0),
    ensures node_ok(o, &o.t@, f), node_ok(o, &o.t@, b), o.t@.off(f) <= o.t@.off(b), o.t@.end(f) <= o.t@.end(b), h.live(f), h.live(b), h.n(f) == o.n(f), h.n(b) == o.n(b), f == SHARED || b == SHARED ==> f == b && o.t@.root == f && o.t@.s.len() == 0,
{
    assert(node_ok(o, &o.t@, f) && node_ok(o, &o.t@, b)); assert(up_ok(o, &o.t@, f) && up_ok(o, &o.t@, b)); assert(node_ok(o, &o.t@, o.t@.root));
    if f != b { lemma_apart(o, &o.t@, f, b); }
    if f == SHARED { lemma_nested(o, b, f); }
    if b == SHARED { lemma_nested(o, f, b); }
    if f != SHARED { assert(o.dom().contains(f)); assert(h.dom().contains(f)); }
    if b != SHARED { assert(o.dom().contains(b)); assert(h.dom().contains(b)); }
}
/// a node of height k that ends where the front is, is the only one
pub proof fn lemma_front_gone<K, V>(o: &Heap<K, V>, h1: &Heap<K, V>, h: &Heap<K, V>, p: usize, k: int, y: int)
    requires shape(o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) == k, remain(o, h1, o.t@.end(p), k, y, 0), h.shrunk(h1, p), p != SHARED,
    ensures remain(o, h, o.t@.end(p), k + 1, y, 0),
{
    assert(node_ok(o, &o.t@, p));
    assert forall|q: usize| #[trigger] h.dom().contains(q) == (o.dom().contains(q) && !(o.t@.fp.contains(q) && gone(&o.t@, o.t@.end(p), k + 1, y, 0, q))) by {
        assert(h1.dom().contains(q) == (o.dom().contains(q) && !(o.t@.fp.contains(q) && gone(&o.t@, o.t@.end(p), k, y, 0, q))));
        if o.t@.fp.contains(q) && q != p && o.t@.ht(q) == k { lemma_apart(o, &o.t@, q, p); assert(node_ok(o, &o.t@, q)); }
    }
    assert forall|q: usize| h.live(q) implies #[trigger] h.n(q) == o.n(q) by { assert(h1.live(q)); }
}
/// the same at the back
pub proof fn lemma_back_gone<K, V>(o: &Heap<K, V>, h1: &Heap<K, V>, h: &Heap<K, V>, p: usize, k: int, x: int)
    requires shape(o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) == k, remain(o, h1, x, 0, o.t@.off(p), k), h.shrunk(h1, p), p != SHARED,
    ensures remain(o, h, x, 0, o.t@.off(p), k + 1),
{
    assert(node_ok(o, &o.t@, p));
    assert forall|q: usize| #[trigger] h.dom().contains(q) == (o.dom().contains(q) && !(o.t@.fp.contains(q) && gone(&o.t@, x, 0, o.t@.off(p), k + 1, q))) by {
        assert(h1.dom().contains(q) == (o.dom().contains(q) && !(o.t@.fp.contains(q) && gone(&o.t@, x, 0, o.t@.off(p), k, q))));
        if o.t@.fp.contains(q) && q != p && o.t@.ht(q) == k { lemma_apart(o, &o.t@, q, p); assert(node_ok(o, &o.t@, q)); }
    }
    assert forall|q: usize| h.live(q) implies #[trigger] h.n(q) == o.n(q) by { assert(h1.live(q)); }
}
/// p, on the way up from the front, is there
pub proof fn lemma_front_there<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: usize, i: int, a: int, b: usize, pb: int)
    requires shape(o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) > 0, 0 <= i <= o.n(p).keys.len(), o.t@.end(o.n(p).edges[i]) == a, o.t@.fp.contains(b), o.t@.ht(b) == 0, a < pb <= o.t@.end(b),
        remain(o, h, a, o.t@.ht(p), o.t@.off(b), 0),
    ensures h.dom().contains(p), h.n(p) == o.n(p), node_ok(o, &o.t@, p), p != SHARED, i == o.n(p).keys.len() ==> o.t@.end(p) == a && p != o.t@.root, o.t@.ht(p) <= o.t@.ht(o.t@.root),
        i == o.n(p).keys.len() ==> ({ let u = o.n(p).parent; let j = o.n(p).pidx; u != 0 && o.t@.fp.contains(u) && o.t@.ht(u) == o.t@.ht(p) + 1 && 0 <= j <= o.n(u).keys.len() && o.n(u).edges[j] == p }),
{
    lemma_down(o, p, i); lemma_nested(o, b, p); lemma_up(o, p); assert(node_ok(o, &o.t@, o.t@.root));
    assert(h.dom().contains(p)); assert(h.live(p));
}
/// the next entry is separator i of p; the front moves on to the first leaf below the child i + 1
pub proof fn lemma_front_down<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: usize, i: int, a: int, b: usize, pb: int)
    requires shape(o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) > 0, 0 <= i < o.n(p).keys.len(), o.t@.end(o.n(p).edges[i]) == a, o.t@.fp.contains(b), o.t@.ht(b) == 0, a < pb <= o.t@.end(b),
        remain(o, h, a, o.t@.ht(p), o.t@.off(b), 0),
    ensures ({ let c = o.n(p).edges[i + 1]; o.es@[p][i + 1] is Some && o.t@.fp.contains(c) && o.t@.ht(c) == o.t@.ht(p) - 1 && o.t@.off(c) == a + 1 && spine_l(h, c) }),
        o.t@.s[a] == (o.n(p).keys[i], o.n(p).vals[i]), h.es@[p][i + 1] is Some, h.n(p) == o.n(p), h.dom().contains(p),
        forall|f: usize| #[trigger] o.t@.fp.contains(f) && o.t@.ht(f) == 0 && o.t@.off(f) == a + 1 ==> remain(o, h, o.t@.end(f), 0, o.t@.off(b), 0),
{
    let t = o.t@; let c = o.n(p).edges[i + 1];
    lemma_down(o, p, i); lemma_down(o, p, i + 1); lemma_front_there(o, h, p, i, a, b, pb);
    lemma_kvpos(o, p, i);
    assert(h.n(p).ok); assert(h.n(p).leaf == o.n(p).leaf); assert(!h.hd@[p].leaf); assert(h.hd@[p].len as int == h.n(p).keys.len()); assert(h.es@[p][i + 1] is Some);
    lemma_spine(o, c);
    assert forall|q: usize| h.t@.fp.contains(q) && h.t@.off(q) == h.t@.off(c) && h.t@.ht(q) <= h.t@.ht(c) implies #[trigger] first_ok(h, q) by {
        assert(first_ok(o, q)); assert(node_ok(o, &t, q)); lemma_nested(o, b, q); assert(up_ok(o, &t, q)); assert(q != SHARED) by { if q == SHARED { assert(node_ok(o, &t, t.root)); } }
        assert(o.dom().contains(q)); assert(h.dom().contains(q)); assert(h.n(q) == o.n(q));
    }
    assert forall|f: usize| #[trigger] t.fp.contains(f) && t.ht(f) == 0 && t.off(f) == a + 1 implies remain(o, h, t.end(f), 0, t.off(b), 0) by {
        assert forall|q: usize| #[trigger] h.dom().contains(q) == (o.dom().contains(q) && !(t.fp.contains(q) && gone(&t, t.end(f), 0, t.off(b), 0, q))) by {
            assert(node_ok(o, &t, f));
            if t.fp.contains(q) {
                assert(node_ok(o, &t, q));
                lemma_nested(o, f, q);
                if t.end(q) == a && t.ht(q) >= t.ht(p) { lemma_nested(o, o.n(p).edges[i], q); lemma_nested(o, p, q); }
            }
        }
    }
}
/// the same at the back
pub proof fn lemma_back_there<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: usize, i: int, a: int, f: usize, pf: int)
    requires shape(o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) > 0, 0 <= i <= o.n(p).keys.len(), o.t@.off(o.n(p).edges[i]) == a, o.t@.fp.contains(f), o.t@.ht(f) == 0, o.t@.off(f) <= pf < a,
        remain(o, h, o.t@.end(f), 0, a, o.t@.ht(p)),
    ensures h.dom().contains(p), h.n(p) == o.n(p), node_ok(o, &o.t@, p), p != SHARED, i == 0 ==> o.t@.off(p) == a && p != o.t@.root, o.t@.ht(p) <= o.t@.ht(o.t@.root),
        i == 0 ==> ({ let u = o.n(p).parent; let j = o.n(p).pidx; u != 0 && o.t@.fp.contains(u) && o.t@.ht(u) == o.t@.ht(p) + 1 && 0 <= j <= o.n(u).keys.len() && o.n(u).edges[j] == p }),
{
    lemma_down(o, p, i); lemma_nested(o, f, p); lemma_up(o, p); assert(node_ok(o, &o.t@, o.t@.root));
    assert(h.dom().contains(p)); assert(h.live(p));
}
pub proof fn lemma_back_down<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: usize, i: int, a: int, f: usize, pf: int)
    requires shape(o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) > 0, 0 < i <= o.n(p).keys.len(), o.t@.off(o.n(p).edges[i]) == a, o.t@.fp.contains(f), o.t@.ht(f) == 0, o.t@.off(f) <= pf < a,
        remain(o, h, o.t@.end(f), 0, a, o.t@.ht(p)),
    ensures ({ let c = o.n(p).edges[i - 1]; o.es@[p][i - 1] is Some && o.t@.fp.contains(c) && o.t@.ht(c) == o.t@.ht(p) - 1 && o.t@.end(c) == a - 1 && spine_r(h, c) }),
        o.t@.s[a - 1] == (o.n(p).keys[i - 1], o.n(p).vals[i - 1]), h.es@[p][i - 1] is Some, h.n(p) == o.n(p), h.dom().contains(p),
        forall|b: usize| #[trigger] o.t@.fp.contains(b) && o.t@.ht(b) == 0 && o.t@.end(b) == a - 1 ==> remain(o, h, o.t@.end(f), 0, o.t@.off(b), 0),
{
    let t = o.t@; let c = o.n(p).edges[i - 1];
    lemma_down(o, p, i); lemma_down(o, p, i - 1); lemma_back_there(o, h, p, i, a, f, pf);
    lemma_kvpos(o, p, i - 1);
    assert(h.n(p).ok); assert(h.n(p).leaf == o.n(p).leaf); assert(!h.hd@[p].leaf); assert(h.hd@[p].len as int == h.n(p).keys.len()); assert(h.es@[p][i - 1] is Some);
    lemma_spine(o, c);
    assert forall|q: usize| h.t@.fp.contains(q) && h.t@.end(q) == h.t@.end(c) && h.t@.ht(q) <= h.t@.ht(c) implies #[trigger] last_ok(h, q) by {
        assert(last_ok(o, q)); assert(node_ok(o, &t, q)); lemma_nested(o, f, q); assert(up_ok(o, &t, q)); assert(q != SHARED) by { if q == SHARED { assert(node_ok(o, &t, t.root)); } }
        assert(o.dom().contains(q)); assert(h.dom().contains(q)); assert(h.n(q) == o.n(q));
    }
    assert forall|b: usize| #[trigger] t.fp.contains(b) && t.ht(b) == 0 && t.end(b) == a - 1 implies remain(o, h, t.end(f), 0, t.off(b), 0) by {
        assert forall|q: usize| #[trigger] h.dom().contains(q) == (o.dom().contains(q) && !(t.fp.contains(q) && gone(&t, t.end(f), 0, t.off(b), 0, q))) by {
            assert(node_ok(o, &t, b));
            if t.fp.contains(q) {
                assert(node_ok(o, &t, q));
                lemma_nested(o, b, q);
                if t.off(q) == a && t.ht(q) >= t.ht(p) { lemma_nested(o, o.n(p).edges[i], q); lemma_nested(o, p, q); }
            }
        }
    }
}
/// the slot is there and filled
pub proof fn lemma_slot<K, V>(h: &Heap<K, V>, p: usize, i: int)
    requires h.wf(), h.dom().contains(p), h.n(p).ok, 0 <= i < h.n(p).keys.len(),
    ensures can(h.ks@, p, i, 1), can(h.vs@, p, i, 1), h.ks@[p][i] == Some(h.n(p).keys[i]), h.vs@[p][i] == Some(h.n(p).vals[i]),
{ assert(h.ks@.contains_key(p)); assert(h.vs@.contains_key(p)); assert(h.ks@[p].len() == 11); assert(h.vs@[p].len() == 11); assert(h.ks@[p][i] is Some); assert(h.vs@[p][i] is Some); assert(h.n(p).vals[i] == h.vs@[p][i]->Some_0); }
pub proof fn lemma_same_heap<K, V>(a: &Heap<K, V>, b: &Heap<K, V>)
    requires a.wf(), b.hd == a.hd, b.es == a.es, b.t == a.t, b.ks@ == a.ks@, b.vs@ == a.vs@,
    ensures b.wf(), forall|q: usize| #[trigger] b.n(q) == a.n(q), b.dom() == a.dom(),
{ }
/// of the tree, the nodes from height k on that have f below them are left
pub open spec fn upward<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, f: usize, k: int) -> bool {
    &&& h.wf() && h.t == o.t
    &&& forall|q: usize| #[trigger] h.dom().contains(q) == (o.dom().contains(q) && (o.t@.fp.contains(q) ==> o.t@.ht(q) >= k && holds_f(o, f, q)))
    &&& forall|q: usize| h.live(q) ==> #[trigger] h.n(q) == o.n(q)
}
pub open spec fn holds_f<K, V>(o: &Heap<K, V>, f: usize, q: usize) -> bool { o.t@.fp.contains(q) && o.t@.off(q) <= o.t@.off(f) && o.t@.end(f) <= o.t@.end(q) }
pub proof fn lemma_over<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, f: usize)
    requires shape(o, &o.t@), o.t@.fp.contains(f), o.t@.ht(f) == 0, remain(o, h, o.t@.end(f), 0, o.t@.off(f), 0),
    ensures upward(o, h, f, 0),
{
    assert(node_ok(o, &o.t@, f));
    assert forall|q: usize| #[trigger] h.dom().contains(q) == (o.dom().contains(q) && (o.t@.fp.contains(q) ==> o.t@.ht(q) >= 0 && holds_f(o, f, q))) by { if o.t@.fp.contains(q) { assert(node_ok(o, &o.t@, q)); } }
}
pub proof fn lemma_ascended<K, V>(o: &Heap<K, V>, h1: &Heap<K, V>, h: &Heap<K, V>, f: usize, p: usize)
    requires shape(o, &o.t@), o.t@.fp.contains(f), o.t@.ht(f) == 0, holds_f(o, f, p), upward(o, h1, f, o.t@.ht(p)), h.shrunk(h1, p), p != SHARED,
    ensures upward(o, h, f, o.t@.ht(p) + 1), node_ok(o, &o.t@, p), o.n(p).parent != 0 ==> holds_f(o, f, o.n(p).parent) && o.t@.ht(o.n(p).parent) == o.t@.ht(p) + 1,
{
    assert(node_ok(o, &o.t@, p)); lemma_up(o, p); assert(node_ok(o, &o.t@, f));
    if p != o.t@.root { lemma_inside(o, &o.t@, o.n(p).parent, o.n(p).pidx); }
    let k = o.t@.ht(p);
    assert forall|q: usize| #[trigger] h.dom().contains(q) == (o.dom().contains(q) && (o.t@.fp.contains(q) ==> o.t@.ht(q) >= k + 1 && holds_f(o, f, q))) by {
        assert(h1.dom().contains(q) == (o.dom().contains(q) && (o.t@.fp.contains(q) ==> o.t@.ht(q) >= k && holds_f(o, f, q))));
        if o.t@.fp.contains(q) && q != p && o.t@.ht(q) == k && holds_f(o, f, q) { lemma_apart(o, &o.t@, q, p); assert(node_ok(o, &o.t@, q)); }
    }
    assert forall|q: usize| h.live(q) implies #[trigger] h.n(q) == o.n(q) by { assert(h1.live(q)); }
}
pub proof fn lemma_under<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, f: usize, p: usize)
    requires shape(o, &o.t@), holds_f(o, f, p), o.t@.ht(p) > 0, upward(o, h, f, o.t@.ht(p)),
    ensures p != SHARED, h.dom().contains(p), h.n(p) == o.n(p), node_ok(o, &o.t@, p), o.t@.ht(p) < 0x1_0000_0000, o.n(p).parent != 0 ==> o.n(p).pidx >= 0, p == o.t@.root ==> o.n(p).parent == 0,
{ lemma_up(o, p); assert(up_ok(o, &o.t@, p)); assert(p != SHARED) by { lemma_down(o, p, 0); } assert(h.dom().contains(p)); assert(h.live(p)); }
pub proof fn lemma_emptied<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, f: usize, p: usize)
    requires shape(o, &o.t@), holds_f(o, f, p), o.n(p).parent == 0, upward(o, h, f, o.t@.ht(p) + 1),
    ensures h.dom() =~= o.dom().difference(o.t@.fp),
{
    lemma_up(o, p);
    assert forall|q: usize| h.dom().contains(q) == o.dom().difference(o.t@.fp).contains(q) by { if o.t@.fp.contains(q) { assert(node_ok(o, &o.t@, q)); } }
}
/// no entry is left: the ends have met
pub proof fn lemma_left_none<K, V>(it: &IntoIter<K, V>, h: &Heap<K, V>)
    requires it.length == 0, it.left(h, it.a(), it.b()),
    ensures it.a() == it.b(),
{ }
/// the static root is the only node of its tree
pub proof fn lemma_shared_only<K, V>(o: &Heap<K, V>, h: &Heap<K, V>)
    requires shape(o, &o.t@), o.t@.root == SHARED, h.wf(), forall|q: usize| !o.t@.fp.contains(q) ==> #[trigger] h.dom().contains(q) == o.dom().contains(q),
    ensures h.dom() =~= o.dom().difference(o.t@.fp),
{
    assert(node_ok(o, &o.t@, SHARED));
    assert forall|q: usize| h.dom().contains(q) == o.dom().difference(o.t@.fp).contains(q) by { if o.t@.fp.contains(q) && q != SHARED { assert(node_ok(o, &o.t@, q)); lemma_apart(o, &o.t@, q, SHARED); lemma_nested(o, q, SHARED); } }
}
/// at first all nodes are there
pub proof fn lemma_all_left<K, V>(o: &Heap<K, V>, f: usize, b: usize)
    requires shape(o, &o.t@), o.t@.fp.contains(f), o.t@.fp.contains(b), o.t@.ht(f) == 0, o.t@.ht(b) == 0, o.t@.off(f) == 0, o.t@.end(b) == o.t@.s.len(),
    ensures remain(o, o, o.t@.end(f), 0, o.t@.off(b), 0),
{
    let t = o.t@;
    assert forall|q: usize| t.fp.contains(q) implies !#[trigger] gone(&t, t.end(f), 0, t.off(b), 0, q) by { assert(node_ok(o, &t, q)); lemma_nested(o, f, q); lemma_nested(o, b, q); }
}
/// reading changes nothing
pub proof fn lemma_same_spine<K, V>(a: &Heap<K, V>, b: &Heap<K, V>, p: usize)
    requires a.wf(), b.hd == a.hd, b.es == a.es, b.t == a.t, b.ks@ == a.ks@, b.vs@ == a.vs@,
    ensures spine_l(a, p) ==> spine_l(b, p), spine_r(a, p) ==> spine_r(b, p),
{
    if spine_l(a, p) { assert forall|q: usize| b.t@.fp.contains(q) && b.t@.off(q) == b.t@.off(p) && b.t@.ht(q) <= b.t@.ht(p) implies #[trigger] first_ok(b, q) by { assert(first_ok(a, q)); } }
    if spine_r(a, p) { assert forall|q: usize| b.t@.fp.contains(q) && b.t@.end(q) == b.t@.end(p) && b.t@.ht(q) <= b.t@.ht(p) implies #[trigger] last_ok(b, q) by { assert(last_ok(a, q)); } }
}
impl<K, V> IntoIter<K, V> {
//@fn src/btree/map.rs | impl<K, V> Iterator for IntoIter<K, V> | next | C13 C17
//@  heap mut
//@  probe loop
//@  rw /ptr::read\(kv\.reborrow\(\)\.into_kv\(([^()]*)\)\.0\)/ => vx_read(kv.reborrow().into_kv(\1).0, &mut h.ks)
//@  rw /ptr::read\(kv\.reborrow\(\)\.into_kv\(([^()]*)\)\.1\)/ => vx_read(kv.reborrow().into_kv(\1).1, &mut h.vs)
//@  rw /ptr::read\(&self\.front\)/ => vx_dup(&self.front)
    requires old(self).left(old(h), old(self).a(), old(self).b()),
    ensures final(self).o == old(self).o, old(self).length == 0 ==> r is None && *final(self) == *old(self) && *final(h) == *old(h),
        old(self).length > 0 ==> r == Some(old(self).o@.t@.s[old(self).a()]) && final(self).left(final(h), old(self).a() + 1, old(self).b()),
//@body
    let ghost o = self.o@; let ghost a = self.a(); let ghost b = self.b(); let ghost f = self.front.node.node.a; let ghost bk = self.back.node.node.a; let ghost h0 = *h;
    proof { lemma_both_ends(&o, h, f, bk, self.front.idx as int, self.back.idx as int); lemma_up(&o, f); }
//@at /let k = unsafe/
 proof { lemma_slot(h, f, kv.idx as int); lemma_kvpos(&o, f, kv.idx as int); }
//@after /self\.front = kv\.right_edge\(h\);/
 proof { lemma_same_heap(&h0, h); assert(remain(&o, h, o.t@.end(f), 0, o.t@.off(bk), 0)); }
//@at /loop\b/
 proof { lemma_front_gone(&o, &h0, h, f, 0, o.t@.off(bk)); lemma_up(&o, f); }
//@loop 0
    invariant shape(&o, &o.t@), o == old(self).o@, a == old(self).a(), b == old(self).b(), self.o == old(self).o, self.back == old(self).back, self.length == old(self).length - 1, old(self).length == b - a, a < b,
        bk == self.back.node.node.a, pos_is(&self.back, &o, b), o.t@.fp.contains(bk), o.t@.ht(bk) == 0, b <= o.t@.end(bk),
        o.t@.fp.contains(cur_handle.node.node.a), o.t@.ht(cur_handle.node.node.a) == cur_handle.node.height, cur_handle.node.height > 0, cur_handle.idx <= o.n(cur_handle.node.node.a).keys.len(),
        o.t@.end(o.n(cur_handle.node.node.a).edges[cur_handle.idx as int]) == a, remain(&o, h, a, cur_handle.node.height as int, o.t@.off(bk), 0),
    decreases o.t@.ht(o.t@.root) - cur_handle.node.height,
//@at /match cur_handle\.right_kv/
 let ghost h1 = *h; let ghost p = cur_handle.node.node.a; let ghost i = cur_handle.idx as int;
 proof { lemma_front_there(&o, h, p, i, a, bk, b); lemma_up(&o, p); }
//@at /let k = unsafe \{[^}]*\};\s*let v = unsafe \{[^}]*\};\s*self\.front = first_leaf_edge/
 proof { lemma_slot(h, p, i); lemma_front_down(&o, h, p, i, a, bk, b); }
//@at /self\.front = first_leaf_edge/
 proof { lemma_same_heap(&h1, h); lemma_same_spine(&h1, h, o.n(p).edges[i + 1]); }
//@after /self\.front = first_leaf_edge[^;]*;/
 proof { assert(node_ok(&o, &o.t@, self.front.node.node.a)); assert(remain(&o, h, o.t@.end(self.front.node.node.a), 0, o.t@.off(bk), 0)); }
//@after /cur_handle = unwrap_unchecked[^;]*;/
 proof { lemma_front_gone(&o, &h1, h, p, o.t@.ht(p), o.t@.off(bk)); }
//@end
//@fn src/btree/map.rs | impl<K, V> DoubleEndedIterator for IntoIter<K, V> | next_back | C13 C17
//@  heap mut
//@  probe loop
//@  rw /ptr::read\(kv\.reborrow\(\)\.into_kv\(([^()]*)\)\.0\)/ => vx_read(kv.reborrow().into_kv(\1).0, &mut h.ks)
//@  rw /ptr::read\(kv\.reborrow\(\)\.into_kv\(([^()]*)\)\.1\)/ => vx_read(kv.reborrow().into_kv(\1).1, &mut h.vs)
//@  rw /ptr::read\(&self\.back\)/ => vx_dup(&self.back)
    requires old(self).left(old(h), old(self).a(), old(self).b()),
    ensures final(self).o == old(self).o, old(self).length == 0 ==> r is None && *final(self) == *old(self) && *final(h) == *old(h),
        old(self).length > 0 ==> r == Some(old(self).o@.t@.s[old(self).b() - 1]) && final(self).left(final(h), old(self).a(), old(self).b() - 1),
//@body
    let ghost o = self.o@; let ghost a = self.a(); let ghost b = self.b(); let ghost f = self.front.node.node.a; let ghost bk = self.back.node.node.a; let ghost h0 = *h;
    proof { lemma_both_ends(&o, h, f, bk, self.front.idx as int, self.back.idx as int); lemma_up(&o, bk); }
//@at /let k = unsafe/
 proof { lemma_slot(h, bk, kv.idx as int); lemma_kvpos(&o, bk, kv.idx as int); }
//@after /self\.back = kv\.left_edge\(h\);/
 proof { lemma_same_heap(&h0, h); assert(remain(&o, h, o.t@.end(f), 0, o.t@.off(bk), 0)); }
//@at /loop\b/
 proof { lemma_back_gone(&o, &h0, h, bk, 0, o.t@.end(f)); lemma_up(&o, bk); }
//@loop 0
    invariant shape(&o, &o.t@), o == old(self).o@, a == old(self).a(), b == old(self).b(), self.o == old(self).o, self.front == old(self).front, self.length == old(self).length - 1, old(self).length == b - a, a < b,
        f == self.front.node.node.a, pos_is(&self.front, &o, a), o.t@.fp.contains(f), o.t@.ht(f) == 0, o.t@.off(f) <= a,
        o.t@.fp.contains(cur_handle.node.node.a), o.t@.ht(cur_handle.node.node.a) == cur_handle.node.height, cur_handle.node.height > 0, cur_handle.idx <= o.n(cur_handle.node.node.a).keys.len(),
        o.t@.off(o.n(cur_handle.node.node.a).edges[cur_handle.idx as int]) == b, remain(&o, h, o.t@.end(f), 0, b, cur_handle.node.height as int),
    decreases o.t@.ht(o.t@.root) - cur_handle.node.height,
//@at /match cur_handle\.left_kv/
 let ghost h1 = *h; let ghost p = cur_handle.node.node.a; let ghost i = cur_handle.idx as int;
 proof { lemma_back_there(&o, h, p, i, b, f, a); lemma_up(&o, p); }
//@at /let k = unsafe \{[^}]*\};\s*let v = unsafe \{[^}]*\};\s*self\.back = last_leaf_edge/
 proof { lemma_slot(h, p, i - 1); lemma_back_down(&o, h, p, i, b, f, a); }
//@at /self\.back = last_leaf_edge/
 proof { lemma_same_heap(&h1, h); lemma_same_spine(&h1, h, o.n(p).edges[i - 1]); }
//@after /self\.back = last_leaf_edge[^;]*;/
 proof { assert(node_ok(&o, &o.t@, self.back.node.node.a)); assert(remain(&o, h, o.t@.end(f), 0, o.t@.off(self.back.node.node.a), 0)); }
//@after /cur_handle = unwrap_unchecked[^;]*;/
 proof { lemma_back_gone(&o, &h1, h, p, o.t@.ht(p), o.t@.end(f)); }
//@end
//@fn src/btree/map.rs | impl<K, V> Iterator for IntoIter<K, V> | size_hint | C13 C17
    ensures r.0 == self.length, r.1 == Some(self.length),
//@end
//@fn src/btree/map.rs | impl<K, V> ExactSizeIterator for IntoIter<K, V> | len | C13 C17
    ensures r == self.length,
//@end

//@fn src/btree/map.rs | impl<K, V> Drop for IntoIter<K, V> | drop | C13 C17
//@  heap mut
//@  rw /self\.for_each\(drop\);/ => while let Some(vx_x) = self.next() { }
//@  rw /ptr::read\(&self\.front\)/ => vx_dup(&self.front)
    requires old(self).left(old(h), old(self).a(), old(self).b()),
    ensures final(h).wf(), final(h).dom() == old(self).o@.dom().difference(old(self).o@.t@.fp), final(h).t == old(h).t, forall|q: usize| final(h).live(q) ==> #[trigger] final(h).n(q) == old(self).o@.n(q),
//@body
    let ghost o = self.o@;
//@loop 0
    invariant self.o == old(self).o, self.left(h, self.a(), self.b()), h.t == old(h).t,
    ensures self.length == 0,
    decreases self.length,
//@at /let leaf_node/
 let ghost f = self.front.node.node.a; let ghost mut g = *h; let ghost mut p = f;
 proof { lemma_left_none(self, h); lemma_same_edge(&o, f, self.front.idx as int, self.back.node.node.a, self.back.idx as int); if f == SHARED { lemma_both_ends(&o, h, f, f, self.front.idx as int, self.front.idx as int); lemma_shared_only(&o, h); } lemma_same_edge(&o, f, self.front.idx as int, self.back.node.node.a, self.back.idx as int); lemma_both_ends(&o, h, f, f, self.front.idx as int, self.front.idx as int); lemma_up(&o, f); lemma_over(&o, h, f); }
//@after /let mut cur_node = [^;]*;/
 proof { lemma_ascended(&o, &g, h, f, f); g = *h; p = cur_node.node.a; }
//@loop 1
    invariant_except_break g == *h, cur_node.node.a == p, cur_node.height == o.t@.ht(p), h.dom().contains(p), h.n(p) == o.n(p),
    invariant shape(&o, &o.t@), o.t@.fp.contains(f), o.t@.ht(f) == 0, o == old(self).o@, h.t == old(h).t, holds_f(&o, f, p), o.t@.ht(p) > 0, upward(&o, &g, f, o.t@.ht(p)), p != SHARED, node_ok(&o, &o.t@, p), o.t@.ht(p) < 0x1_0000_0000, o.n(p).parent != 0 ==> o.n(p).pidx >= 0,
    ensures h.shrunk(&g, p), o.n(p).parent == 0,
    decreases o.t@.ht(o.t@.root) - o.t@.ht(p),
//@at /cur_node = parent/
 proof { lemma_ascended(&o, &g, h, f, p); g = *h; p = parent.node.node.a; lemma_under(&o, h, f, p); }
//@at /while let Some\(parent\)/
 proof { lemma_under(&o, &g, f, p); }
//@at /\}\s*\}$/
 proof { lemma_ascended(&o, &g, h, f, p); lemma_emptied(&o, h, f, p); }
//@end
}
impl<K, V> BTreeMap<K, V> {
    /// the map's nodes, however full they are
    pub open spec fn whole(&self, h: &Heap<K, V>) -> bool { shape(h, &h.t@) && self.root.node.ptr.a == h.t@.root && self.root.height == h.t@.ht(h.t@.root) && self.length == h.t@.s.len() }
//@fn src/btree/map.rs | impl<K, V> IntoIterator for BTreeMap<K, V> | into_iter | C13 C17
//@  heap ref
//@  rw /ptr::read\(&self\.root\)/ => vx_dup(&self.root)
//@  rw /mem::forget\(self\);/ => 
//@  rw /length: len,/ => length: len, o: Ghost(*h),
//@  rw /IntoIter \{([^{}]*)\}/ => let vx_r = IntoIter {\1}; vx_r
    requires self.whole(h),
    ensures r.left(h, 0, h.t@.s.len() as int), r.a() == 0, r.b() == h.t@.s.len(), r.o@ == *h, r.length == self.length,
//@body
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@at /vx_r\s*\}$/
 proof { lemma_all_left(h, vx_r.front.node.node.a, vx_r.back.node.node.a); }
//@end
//@fn src/btree/map.rs | unsafe impl<K, V> Drop for BTreeMap<K, V> | drop | C17
//@  heap mut
//@  rw /drop\(ptr::read\(self\)\.into_iter\(\)\);/ => let mut vx_it = vx_dup(self).into_iter(); vx_it.drop();
    requires old(self).whole(old(h)),
    ensures final(h).wf(), final(h).dom() == old(h).dom().difference(old(h).t@.fp), forall|q: usize| final(h).live(q) ==> #[trigger] final(h).n(q) == old(h).n(q),
//@end
}
impl<K: Ord, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | clear | C11 C17
//@  heap mut
//@  rw /\*self = BTreeMap::new\(\);/ => let vx_new = BTreeMap::new(); self.drop(); *self = vx_new;
    requires old(self).ok(old(h)),
    ensures final(self).ok(final(h)), final(h).t@.s.len() == 0, final(self).length == 0, final(h).dom() == old(h).dom().difference(old(h).t@.fp), forall|q: usize| final(h).live(q) ==> #[trigger] final(h).n(q) == old(h).n(q),
//@after /\*self = vx_new;/
 vx_hold(Ghost(nothing::<K, V>()), h);
 proof { lemma_nothing(h); }
//@end
}
}
fn main() {}
