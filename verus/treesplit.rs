// A map split in two. src/btree/map.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
use core::borrow::Borrow;
verus! {
//@assume treebuild.rs
//@include split_model.rsi
//@threads dfs recalc_length split_off move_suffix is_empty
/// the tree of a map that owns no node
pub open spec fn nothing<K, V>() -> Tree<K, V> { Tree { s: Seq::<(K, V)>::empty(), fp: set![SHARED], lab: Map::empty().insert(SHARED, Lab { off: 0, end: 0, ht: 0 }), root: SHARED } }
pub proof fn lemma_nothing<K, V>(h: &Heap<K, V>)
    requires h.wf(),
    ensures tree(h, &nothing::<K, V>()),
{
    let t = nothing::<K, V>();
    assert(h.n(SHARED).keys.len() == 0);
    assert forall|p: usize| t.fp.contains(p) implies #[trigger] node_ok(h, &t, p) by { assert(leaf_ok(h, &t, p)); }
}
#[verifier::external_body]
pub fn vx_shared_node() -> (r: P) ensures r.a == SHARED { unimplemented!() }
impl<K, V> Root<K, V> {
//@fn src/btree/node.rs | impl<K, V> Root<K, V> | shared_empty_root | C11 C15
//@  rw /NonNull::new_unchecked\(\s*&EMPTY_ROOT_NODE as \*const _ as \*const LeafNode<K, V> as \*mut _,\s*\)/ => vx_shared_node()
    ensures r.node.ptr.a == SHARED, r.height == 0,
//@end
}
impl<K: Ord, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | new | C11 C15
//@  rw /node::Root/ => Root
    ensures r.root.node.ptr.a == SHARED, r.root.height == 0, r.length == 0,
//@end
}
/// each separator behind a child is an entry
pub proof fn lemma_behind<K, V>(h: &Heap<K, V>, p: usize, i: int)
    requires shape(h, &h.t@), h.t@.fp.contains(p), h.t@.ht(p) > 0, 0 <= i <= h.n(p).keys.len(),
    ensures h.t@.end(h.n(p).edges[i]) + (h.n(p).keys.len() - i) <= h.t@.end(p),
    decreases h.n(p).keys.len() - i,
{
    lemma_down(h, p, i);
    if i < h.n(p).keys.len() { lemma_down(h, p, i + 1); lemma_behind(h, p, i + 1); }
}
//@fn src/btree/map.rs | fn recalc_length | dfs | C11 C15
//@  heap ref
//@  rw /if let Internal\(node\) = node\.force\(\) \{\s*let mut edge = node\.first_edge/ => if let Internal(vx_in) = node.force() { let mut edge = vx_in.first_edge
//@  probe loop
    requires shape(h, &h.t@), node.in_tree(h), h.t@.s.len() <= usize::MAX,
    ensures r == h.t@.end(node.node.a) - h.t@.off(node.node.a),
    decreases node.height,
//@body
    let ghost p = node.node.a;
    proof { assert(node_ok(h, &h.t@, p)); if node.height > 0 { lemma_down(h, p, 0); } }
//@loop 0
    invariant_except_break edge.node.node.a == p, edge.node.height == node.height, edge.idx <= h.n(p).keys.len(), res == h.t@.off(h.n(p).edges[edge.idx as int]) - h.t@.off(p) + h.n(p).keys.len() - edge.idx,
    invariant shape(h, &h.t@), h.t@.s.len() <= usize::MAX, p == node.node.a, h.t@.fp.contains(p), h.t@.ht(p) == node.height, node.height > 0,
    ensures res == h.t@.end(p) - h.t@.off(p),
    decreases h.n(p).keys.len() - edge.idx,
//@at /res \+= dfs/
 proof { lemma_down(h, p, edge.idx as int); lemma_behind(h, p, edge.idx as int); if edge.idx < h.n(p).keys.len() { lemma_down(h, p, edge.idx + 1); } }
//@end
pub proof fn lemma_sorted_right<K, V>(s: Seq<(K, V)>, a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires sorted(s), a + b == s,
    ensures sorted(b),
{ assert forall|i: int, j: int| 0 <= i < j < b.len() implies krank((#[trigger] b[i]).0) < krank((#[trigger] b[j]).0) by { assert(s[a.len() + i] == b[i]); assert(s[a.len() + j] == b[j]); } }
/// m is the map of the tree t, and has the entries from q on
pub open spec fn parts<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, m: &BTreeMap<K, V>, t: &Tree<K, V>, q: int) -> bool {
    &&& parted(o, h, t) && m.root.node.ptr.a == t.root && m.root.height == t.ht(t.root) && m.length == t.s.len()
    &&& h.t@.s + t.s == o.t@.s
    &&& forall|j: int| 0 <= j < h.t@.s.len() ==> krank((#[trigger] h.t@.s[j]).0) < q
    &&& forall|j: int| 0 <= j < t.s.len() ==> krank((#[trigger] t.s[j]).0) >= q
}
/// a new tree without entries beside the map's
pub proof fn lemma_beside<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, g: &PT<K, V>)
    requires tree(o, &o.t@), aside(o, h, g), g.s.len() == 0, o.t@.root != SHARED,
    ensures tree(h, &h.t@), two(h, g), beside(o, h, g), parting(h, g, h.t@.ht(h.t@.root)),
{
    let t = h.t@;
    lemma_held(o, h);
    assert forall|p: usize| t.fp.contains(p) implies #[trigger] occ_ok(h, &t, p) && !g.in_(p) by { assert(occ_ok(o, &t, p)); assert(node_ok(o, &t, p)); assert(up_ok(o, &t, p)); assert(o.live(p)); assert(h.n(p) == o.n(p)); }
    assert forall|p: usize| t.fp.contains(p) implies #[trigger] spare_l(h, t.ht(t.root), p) by { assert(occ_ok(h, &t, p)); }
    assert forall|p: usize| g.in_(p) implies #[trigger] spare_r(h, g, p) by { assert(nok(g, p)); }
    assert forall|q: usize| #[trigger] foreign(o, q) implies foreign(h, q) && !g.in_(q) by { assert(h.dom().contains(q)); }
    assert forall|q: usize| #[trigger] foreign(h, q) && !g.in_(q) implies foreign(o, q) by { assert(h.dom().contains(q)); }
    assert forall|q: usize| #[trigger] foreign(o, q) && (o.n(q).parent == 0 || foreign(o, o.n(q).parent)) implies h.n(q) == o.n(q) by { assert(o.live(q)); }
    assert forall|p: usize| #[trigger] t.fp.contains(p) implies !g.in_(p) by { assert(occ_ok(h, &t, p)); }
}
/// the map's tree is in place while there is another without entries beside it
pub proof fn lemma_still<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, g: &PT<K, V>)
    requires tree(o, &o.t@), aside(o, h, g), o.t@.root != SHARED,
    ensures tree(h, &h.t@), stay(o, h),
{
    let t = h.t@;
    lemma_held(o, h);
    assert forall|p: usize| t.fp.contains(p) implies #[trigger] occ_ok(h, &t, p) by { assert(occ_ok(o, &t, p)); assert(node_ok(o, &t, p)); assert(h.n(p) == o.n(p)); }
    assert forall|q: usize| #[trigger] foreign(o, q) && (o.n(q).parent == 0 || foreign(o, o.n(q).parent)) implies h.n(q) == o.n(q) by { assert(o.live(q)); }
}
/// both trees put right
pub proof fn lemma_parted<K, V>(o: &Heap<K, V>, hb: &Heap<K, V>, h: &Heap<K, V>, t3: &Tree<K, V>, t4: &Tree<K, V>)
    requires tree(h, &h.t@), h.t@ == *t4, kept(hb, h), stay(o, hb), tree(hb, t3), forall|p: usize| #[trigger] t3.fp.contains(p) ==> foreign(hb, p),
        forall|q: usize| (#[trigger] foreign(hb, q) && !t3.fp.contains(q)) == foreign(o, q),
    ensures tree(h, t3), stay(o, h), forall|p: usize| #[trigger] t3.fp.contains(p) ==> foreign(h, p), forall|q: usize| (#[trigger] foreign(h, q) && !t3.fp.contains(q)) == foreign(o, q),
{
    lemma_other(hb, h, t3);
    assert forall|q: usize| (#[trigger] foreign(h, q) && !t3.fp.contains(q)) == foreign(o, q) by { assert(foreign(hb, q) == foreign(h, q)); }
    assert forall|q: usize| #[trigger] foreign(o, q) && (o.n(q).parent == 0 || foreign(o, o.n(q).parent)) implies h.n(q) == o.n(q) by { assert(foreign(hb, q)); assert(hb.n(q) == o.n(q)); if o.n(q).parent != 0 { assert(foreign(hb, o.n(q).parent)); } }
}
/// the left tree is the heap's
pub proof fn lemma_apart_done<K, V>(o: &Heap<K, V>, hc: &Heap<K, V>, h: &Heap<K, V>, t4: &Tree<K, V>)
    requires hc.t@ == *t4, tree(hc, t4), tree(hc, &h.t@), stay(o, hc), forall|p: usize| #[trigger] h.t@.fp.contains(p) ==> foreign(hc, p), forall|q: usize| (#[trigger] foreign(hc, q) && !h.t@.fp.contains(q)) == foreign(o, q),
        h.wf(), h.dom() == hc.dom(), forall|q: usize| #[trigger] h.n(q) == hc.n(q),
    ensures parted(o, h, t4),
{
    lemma_tree_same(hc, h, t4); lemma_tree_same(hc, h, &h.t@);
    assert forall|q: usize| #[trigger] h.t@.fp.contains(q) && q != SHARED implies !t4.fp.contains(q) by { assert(foreign(hc, q)); }
    assert forall|q: usize| (#[trigger] foreign(h, q) && !t4.fp.contains(q)) == foreign(o, q) by { assert(h.dom().contains(q) == hc.dom().contains(q)); assert(foreign(hc, q) == (hc.dom().contains(q) && !t4.fp.contains(q))); }
    assert forall|q: usize| #[trigger] foreign(o, q) && (o.n(q).parent == 0 || foreign(o, o.n(q).parent)) implies h.n(q) == o.n(q) by { assert(hc.n(q) == o.n(q)); }
}
impl<K: Ord, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | recalc_length | C11 C15
//@  heap ref
    requires tree(h, &h.t@), root_is(old(self), h), h.t@.s.len() <= usize::MAX,
    ensures final(self).ok(h), final(self).root == old(self).root,
//@body
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | split_off | C11 C12 C15 C16
//@  heap mut
//@  probe loop
//@  rw /\bsearch::/ => 
//@  rw /node::Root/ => Root
//@  rw /return Ok\(Self::new\(\)\);/ => let vx_none = Self::new(); return Ok(vx_none);
//@  rw /self\.root\.as_mut\(\)/ => self.root.vx_mut()
//@  rw /right\.root\.as_mut\(\)/ => right.root.vx_mut()
//@  rw /(?:unreachable!|vx_unreachable)\(\);/ => vx_unreachable(); break;
//@  rw /right_node = node\.first_edge\(\)\.descend\(\);/ => let vx_e = node.first_edge(); right_node = vx_e.descend();
    requires old(self).ok(old(h)),
    ensures match r {
        Err(_) => *final(self) == *old(self) && final(self).ok(final(h)) && final(h).t@ == old(h).t@ && stay(old(h), final(h)),
        Ok(m) => final(self).ok(final(h)) && exists|t: Tree<K, V>| #[trigger] parts(old(h), final(h), &m, &t, qrank(key)),
    },
//@body
    let ghost o = *h; let ghost q = qrank(key);
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@at /return Ok\(vx_none\)/
 proof { lemma_nothing(h); let t = nothing::<K, V>(); assert(h.t@.s + t.s =~= o.t@.s); assert forall|p: usize| #[trigger] h.t@.fp.contains(p) && p != SHARED implies !t.fp.contains(p) by { } assert(parted(&o, h, &t)); assert(parts(&o, h, &vx_none, &t, q)); }
//@after /right\.root = Root::new_leaf[^;]*;/
 let ghost mut g2 = one_t::<K, V>(right.root.node.ptr.a);
 proof { lemma_aside_one(&o, h, right.root.node.ptr.a); }
//@loop 0
    invariant o == *old(h), old(self).ok(&o), *self == *old(self), o.t@.root != SHARED, o.wf(), aside(&o, h, &g2), g2.s.len() == 0, g2.root == right.root.node.ptr.a, g2.ht(g2.root) == right.root.height, right.root.height == vx_i, vx_end0 == o.t@.ht(o.t@.root), vx_end0 < 0x1_0000_0000,
//@at /right\.root\.push_level/
 let ghost h2 = *h;
 proof { lemma_still(&o, h, &g2); }
//@after /right\.root\.push_level[^;]*;/
 vx_hold(Ghost(o.t@), h);
 proof { let w = right.root.node.ptr.a; lemma_aside_grow(&o, &h2, h, &g2, w); g2 = grow_t(&g2, w); }
//@at /\{\s*let mut left_node/
 proof { lemma_beside(&o, h, &g2); assert(nok(&g2, g2.root)); }
//@loop 1
    invariant_except_break parting(h, &g2, left_node.height as int), left_node.in_tree(h), rightmost(h, left_node.node.a), below(h, left_node.node.a, q),
        g2.in_(right_node.node.a), g2.ht(right_node.node.a) == left_node.height, right_node.height == left_node.height, g2.off(right_node.node.a) == 0, g2.end(right_node.node.a) == 0,
    invariant q == qrank(key), o == *old(h), sorted(h.t@.s), beside(&o, h, &g2), h.t@.s + g2.s == o.t@.s, forall|j: int| 0 <= j < g2.s.len() ==> krank((#[trigger] g2.s[j]).0) >= q,
        root_is(self, h), right.root.node.ptr.a == g2.root, right.root.height == g2.ht(g2.root), self.length == old(self).length,
    ensures parting(h, &g2, -1), forall|j: int| 0 <= j < h.t@.s.len() ==> krank((#[trigger] h.t@.s[j]).0) < q,
    decreases left_node.height,
//@at /let mut split_edge/
 let ghost h1 = *h; let ghost l = left_node.node.a; let ghost r = right_node.node.a;
 proof { assert(node_ok(h, &h.t@, l)); }
//@at /split_edge\.move_suffix/
 let ghost x = split_edge.idx as int;
 proof { if x < h.n(l).keys.len() && krank(h.n(l).keys[x]) == q { lemma_cut_found(h, l, x, q); } else { lemma_cut_down(h, l, x, q); } lemma_cut_pre(h, &g2, l, x, r); }
//@after /split_edge\.move_suffix\([^;]*;/
 vx_cut(Ghost(o), Ghost(h1), Ghost(g2), Ghost(l), Ghost(x), Ghost(r), h);
 proof { g2 = cutr_t(&snap(&h1), l, x, &g2, r); assert(node_ok(h, &h.t@, l)); }
//@at /self\.fix_right_border/
 let ghost h2 = *h;
 proof { assert forall|p: usize| h.t@.fp.contains(p) && p != h.t@.root && !rightmost(h, p) implies (#[trigger] h.n(p)).keys.len() >= MINOCC by { assert(spare_l(h, -1, p)); } }
//@after /self\.fix_right_border[^;]*;/
 let ghost t3 = h.t@;
 proof { if t3.root == SHARED { assert(t3.fp.contains(SHARED)); assert(h2.t@.fp.contains(SHARED)); assert(up_ok(&h2, &h2.t@, SHARED)); } }
 vx_right(Ghost(o), Ghost(h2), Ghost(g2), h);
 let ghost hb = *h;
 proof { lemma_sorted_right(o.t@.s, t3.s, h.t@.s); }
//@after /right\.fix_left_border[^;]*;/
 let ghost t4 = h.t@; let ghost hc = *h;
 proof { lemma_parted(&o, &hb, h, &t3, &t4); }
//@at /self\.recalc_length/
 vx_hold(Ghost(t3), h);
 proof { lemma_tree_same(&hc, h, &t3); }
//@at /Ok\(right\)/
 vx_hold(Ghost(t3), h);
 proof { lemma_apart_done(&o, &hc, h, &t4); assert(h.t@.s + t4.s =~= o.t@.s); assert(parts(&o, h, &right, &t4, q)); }
//@end
}
}
fn main() {}
