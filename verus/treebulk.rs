// Whole stretches of the tree at once: the edges put right, trees built in order and split. src/btree/map.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
use core::borrow::Borrow;
verus! {
//@assume treedel.rs
//@include bulk_model.rsi
use InsertResult::*;
use ForceResult::*;
use SearchResult::*;
//@threads fix_top fix_right_edge fix_right_border fix_left_border pop_level merge bulk_steal_left bulk_steal_right can_merge
/// the map's root is that of the heap's tree
pub open spec fn root_is<K, V>(m: &BTreeMap<K, V>, h: &Heap<K, V>) -> bool { m.root.node.ptr.a == h.t@.root && m.root.height == h.t@.ht(h.t@.root) }
/// c is the last node of its height
pub open spec fn rightmost<K, V>(h: &Heap<K, V>, c: usize) -> bool { h.t@.end(c) == h.t@.s.len() }
pub open spec fn leftmost<K, V>(h: &Heap<K, V>, c: usize) -> bool { h.t@.off(c) == 0 }
/// q has its entries, or is the root, or one of the nodes at the right edge still to come
pub open spec fn due_r<K, V>(h: &Heap<K, V>, c: usize, q: usize) -> bool { q == h.t@.root || h.n(q).keys.len() >= MINOCC || rightmost(h, q) && h.t@.ht(q) < h.t@.ht(c) }
pub open spec fn due_l<K, V>(h: &Heap<K, V>, c: usize, q: usize) -> bool { q == h.t@.root || h.n(q).keys.len() >= MINOCC || leftmost(h, q) && h.t@.ht(q) < h.t@.ht(c) }
/// on the way down the right edge to c
pub open spec fn down_r<K, V>(h: &Heap<K, V>, c: usize) -> bool {
    let t = h.t@;
    &&& shape(h, &t) && t.fp.contains(c) && rightmost(h, c) && (if c == t.root { t.ht(c) > 0 ==> h.n(c).keys.len() > 0 } else { h.n(c).keys.len() >= 5 })
    &&& forall|q: usize| t.fp.contains(q) ==> #[trigger] due_r(h, c, q)
}
pub open spec fn down_l<K, V>(h: &Heap<K, V>, c: usize) -> bool {
    let t = h.t@;
    &&& shape(h, &t) && t.fp.contains(c) && leftmost(h, c) && (if c == t.root { t.ht(c) > 0 ==> h.n(c).keys.len() > 0 } else { h.n(c).keys.len() >= 5 })
    &&& forall|q: usize| t.fp.contains(q) ==> #[trigger] due_l(h, c, q)
}
/// the last child of c comes next: it has been joined with its neighbour, or has enough entries
pub proof fn d_right<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, c: usize, d: usize, dead: bool)
    requires down_r(o, c), o.t@.ht(c) > 0,
        ({ let i = o.n(c).keys.len() - 1; let l = o.n(c).edges[i]; let r = o.n(c).edges[i + 1];
            &&& reshaped(o, h, c, l, r, dead)
            &&& dead ==> d == l && h.n(c).keys.len() == o.n(c).keys.len() - 1
            &&& !dead ==> d == r && h.n(c).keys.len() == o.n(c).keys.len() && h.n(l).keys.len() >= MINOCC }),
        h.n(d).keys.len() >= 5,
    ensures down_r(h, d), d != h.t@.root, h.t@.ht(d) == h.t@.ht(c) - 1,
{
    let t = h.t@; let ot = o.t@; let i = o.n(c).keys.len() - 1; let l = o.n(c).edges[i]; let r = o.n(c).edges[i + 1];
    lemma_pairing(o, c, i); lemma_down(o, c, i + 1);
    assert(t.fp.contains(c) && t.fp.contains(d)); assert(t.ht(c) == ot.ht(c)); assert(t.ht(d) == ot.ht(d)); assert(ot.fp.contains(l) && ot.fp.contains(r));
    assert(rightmost(h, d));
    assert forall|q: usize| t.fp.contains(q) implies #[trigger] due_r(h, d, q) by {
        assert(ot.fp.contains(q)); assert(due_r(o, c, q)); assert(t.ht(q) == ot.ht(q));
        if q != c && q != l && q != r { assert(h.n(q).keys.len() == o.n(q).keys.len()); assert(t.end(q) == ot.end(q));
            if rightmost(h, q) && t.ht(q) < t.ht(c) && t.ht(q) == t.ht(d) { lemma_apart(h, &t, q, d); assert(node_ok(h, &t, q) && node_ok(h, &t, d)); } }
    }
}
pub proof fn d_left<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, c: usize, dead: bool)
    requires down_l(o, c), o.t@.ht(c) > 0,
        ({ let l = o.n(c).edges[0]; let r = o.n(c).edges[1];
            &&& reshaped(o, h, c, l, r, dead)
            &&& dead ==> h.n(c).keys.len() == o.n(c).keys.len() - 1
            &&& !dead ==> h.n(c).keys.len() == o.n(c).keys.len() && h.n(r).keys.len() >= MINOCC }),
        h.n(o.n(c).edges[0]).keys.len() >= 5,
    ensures ({ let d = o.n(c).edges[0]; down_l(h, d) && d != h.t@.root && h.t@.ht(d) == h.t@.ht(c) - 1 }),
{
    let t = h.t@; let ot = o.t@; let l = o.n(c).edges[0]; let r = o.n(c).edges[1]; let d = l;
    assert(node_ok(o, &ot, c));
    lemma_pairing(o, c, 0); lemma_down(o, c, 0);
    assert(t.fp.contains(c) && t.fp.contains(d)); assert(t.ht(c) == ot.ht(c)); assert(t.ht(d) == ot.ht(d)); assert(ot.fp.contains(l) && ot.fp.contains(r));
    assert(leftmost(h, d));
    assert forall|q: usize| t.fp.contains(q) implies #[trigger] due_l(h, d, q) by {
        assert(ot.fp.contains(q)); assert(due_l(o, c, q)); assert(t.ht(q) == ot.ht(q));
        if q != c && q != l && q != r { assert(h.n(q).keys.len() == o.n(q).keys.len()); assert(t.off(q) == ot.off(q));
            if leftmost(h, q) && t.ht(q) < t.ht(c) && t.ht(q) == t.ht(d) { lemma_apart(h, &t, q, d); assert(node_ok(h, &t, q) && node_ok(h, &t, d)); } }
    }
}
/// the last child of c comes next: it had enough entries
pub proof fn d_next_r<K, V>(h: &Heap<K, V>, c: usize)
    requires down_r(h, c), h.t@.ht(c) > 0, h.n(h.n(c).edges[h.n(c).keys.len() as int]).keys.len() >= 5,
    ensures ({ let d = h.n(c).edges[h.n(c).keys.len() as int]; down_r(h, d) && d != h.t@.root && h.t@.ht(d) == h.t@.ht(c) - 1 }),
{
    let t = h.t@; let d = h.n(c).edges[h.n(c).keys.len() as int];
    lemma_down(h, c, h.n(c).keys.len() as int); assert(node_ok(h, &t, c)); assert(up_ok(h, &t, d)); assert(h.child_ok(c, h.n(c).keys.len() as int, d)); assert(up_ok(h, &t, t.root));
    assert forall|q: usize| t.fp.contains(q) implies #[trigger] due_r(h, d, q) by { assert(due_r(h, c, q)); assert(node_ok(h, &t, q)); if q != d && rightmost(h, q) && t.ht(q) == t.ht(d) { lemma_apart(h, &t, q, d); } }
}
pub proof fn d_next_l<K, V>(h: &Heap<K, V>, c: usize)
    requires down_l(h, c), h.t@.ht(c) > 0, h.n(h.n(c).edges[0]).keys.len() >= 5,
    ensures ({ let d = h.n(c).edges[0]; down_l(h, d) && d != h.t@.root && h.t@.ht(d) == h.t@.ht(c) - 1 }),
{
    let t = h.t@; let d = h.n(c).edges[0];
    assert(node_ok(h, &t, c)); lemma_down(h, c, 0); assert(up_ok(h, &t, d)); assert(h.child_ok(c, 0, d)); assert(up_ok(h, &t, t.root));
    assert forall|q: usize| t.fp.contains(q) implies #[trigger] due_l(h, d, q) by { assert(due_l(h, c, q)); assert(node_ok(h, &t, q)); if q != d && leftmost(h, q) && t.ht(q) == t.ht(d) { lemma_apart(h, &t, q, d); assert(node_ok(h, &t, d)); } }
}
/// q has its entries, or is one of the nodes at the right edge still to come; one that is beside the right edge there has some to spare
pub open spec fn full_r<K, V>(h: &Heap<K, V>, c: usize, q: usize) -> bool {
    if h.t@.ht(q) < h.t@.ht(c) { rightmost(h, q) || h.n(q).keys.len() >= 9 } else { occ_ok(h, &h.t@, q) }
}
pub open spec fn going_r<K, V>(h: &Heap<K, V>, c: usize) -> bool {
    let t = h.t@;
    &&& shape(h, &t) && t.fp.contains(c) && rightmost(h, c) && (t.ht(c) > 0 ==> h.n(c).keys.len() > 0)
    &&& forall|q: usize| t.fp.contains(q) ==> #[trigger] full_r(h, c, q)
}
pub proof fn d_going0<K, V>(h: &Heap<K, V>, c: usize)
    requires going_r(h, c), h.t@.ht(c) > 0, h.n(h.n(c).edges[h.n(c).keys.len() as int]).keys.len() >= 5,
    ensures ({ let d = h.n(c).edges[h.n(c).keys.len() as int]; going_r(h, d) && h.t@.ht(d) == h.t@.ht(c) - 1 }),
{
    let t = h.t@; let d = h.n(c).edges[h.n(c).keys.len() as int];
    lemma_down(h, c, h.n(c).keys.len() as int); assert(node_ok(h, &t, c)); assert(up_ok(h, &t, d)); assert(h.child_ok(c, h.n(c).keys.len() as int, d)); assert(up_ok(h, &t, t.root));
    assert forall|q: usize| t.fp.contains(q) implies #[trigger] full_r(h, d, q) by { assert(full_r(h, c, q)); assert(node_ok(h, &t, q)); if q != d && rightmost(h, q) && t.ht(q) == t.ht(d) { lemma_apart(h, &t, q, d); } }
}
pub proof fn d_going<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, c: usize)
    requires going_r(o, c), o.t@.ht(c) > 0,
        ({ let i = o.n(c).keys.len() - 1; let l = o.n(c).edges[i]; let r = o.n(c).edges[i + 1];
            reshaped(o, h, c, l, r, false) && h.n(c).keys.len() == o.n(c).keys.len() && h.n(l).keys.len() >= MINOCC && h.n(r).keys.len() >= 5 }),
    ensures ({ let d = o.n(c).edges[o.n(c).keys.len() as int]; going_r(h, d) && h.t@.ht(d) == h.t@.ht(c) - 1 }),
{
    let t = h.t@; let ot = o.t@; let i = o.n(c).keys.len() - 1; let l = o.n(c).edges[i]; let r = o.n(c).edges[i + 1]; let d = r;
    lemma_pairing(o, c, i); lemma_down(o, c, i + 1);
    assert(t.fp.contains(c) && t.fp.contains(d)); assert(t.ht(c) == ot.ht(c)); assert(t.ht(d) == ot.ht(d)); assert(ot.fp.contains(l) && ot.fp.contains(r));
    assert(rightmost(h, d));
    assert forall|q: usize| t.fp.contains(q) implies #[trigger] full_r(h, d, q) by {
        assert(ot.fp.contains(q)); assert(full_r(o, c, q)); assert(t.ht(q) == ot.ht(q)); assert(t.ht(l) == ot.ht(l));
        if q != c && q != l && q != r { assert(h.n(q).keys.len() == o.n(q).keys.len()); assert(t.end(q) == ot.end(q));
            if rightmost(h, q) && t.ht(q) == t.ht(d) { lemma_apart(h, &t, q, d); assert(node_ok(h, &t, q) && node_ok(h, &t, d)); } }
    }
}
/// nothing left to do
pub proof fn d_done<K, V>(h1: &Heap<K, V>, h: &Heap<K, V>)
    requires topped(h1, h), sorted(h.t@.s), forall|q: usize| h1.t@.fp.contains(q) ==> q == h1.t@.root || (#[trigger] h1.n(q)).keys.len() >= MINOCC,
        h.n(h.t@.root).keys.len() > 0 || h.t@.ht(h.t@.root) == 0,
    ensures tree(h, &h.t@),
{
    let t = h.t@;
    assert forall|q: usize| t.fp.contains(q) implies #[trigger] occ_ok(h, &t, q) by { if q != t.root { assert(h1.t@.fp.contains(q)); assert(q != h1.t@.root); assert(h1.n(q).keys.len() >= MINOCC); } }
}
impl<K: Ord, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | fix_top | C11 C12 C15 C17
//@  heap mut
//@  probe loop
    requires root_is(old(self), old(h)), shape(old(h), &old(h).t@),
    ensures root_is(final(self), final(h)), final(self).length == old(self).length, topped(old(h), final(h)),
        final(h).n(final(h).t@.root).keys.len() > 0 || final(h).t@.ht(final(h).t@.root) == 0,
//@body
    let ghost o = *h;
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@loop 0
    invariant o == *old(h), o.wf(), root_is(self, h), self.length == old(self).length, topped(&o, h),
    ensures h.n(h.t@.root).keys.len() > 0 || h.t@.ht(h.t@.root) == 0,
    decreases h.t@.ht(h.t@.root),
//@at /\{\s*let node/
 proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@at /self\.root\.pop_level/
 let ghost h1 = *h;
 proof { lemma_down(h, h.t@.root, 0); lemma_snap(h); assert(nok(&snap(h), h.t@.root)); assert(agn(h, &snap(h), h.t@.root)); }
//@after /self\.root\.pop_level\(h\);/
 vx_popped(Ghost(h1), h);
 proof { lemma_topped(&o, &h1, h); assert(node_ok(&h1, &h1.t@, h1.t@.root)); }
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | fix_right_border | C11 C12 C15
//@  heap mut
//@  probe loop
//@  rw /self\.root\.as_mut\(\)/ => self.root.vx_mut()
//@  rw /node::MIN_LEN/ => MIN_LEN
//@  rw /cur_node = last_kv\.merge\(\)\.descend\(\);/ => let vx_m = last_kv.merge(); cur_node = vx_m.descend();
//@  rw /cur_node = last_kv\.right_edge\(\)\.descend\(\);/ => let vx_e = last_kv.right_edge(); cur_node = vx_e.descend();
    requires root_is(old(self), old(h)), shape(old(h), &old(h).t@), sorted(old(h).t@.s),
        forall|q: usize| old(h).t@.fp.contains(q) && q != old(h).t@.root && !rightmost(old(h), q) ==> (#[trigger] old(h).n(q)).keys.len() >= MINOCC,
    ensures root_is(final(self), final(h)), final(self).length == old(self).length, tree(final(h), &final(h).t@), final(h).t@.s == old(h).t@.s, kept(old(h), final(h)), forall|q: usize| #[trigger] final(h).t@.fp.contains(q) ==> old(h).t@.fp.contains(q),
//@body
    let ghost o = *h;
//@at /let mut cur_node/
 proof { let t = h.t@; assert forall|q: usize| t.fp.contains(q) implies #[trigger] due_r(h, t.root, q) by { assert(node_ok(h, &t, q)); assert(o.t@.fp.contains(q)); if q != t.root && t.ht(q) == t.ht(t.root) { lemma_apart(h, &t, q, t.root); } } }
//@loop 0
    invariant o == *old(h), o.wf(), root_is(self, h), self.length == old(self).length, sorted(h.t@.s), h.t@.s == o.t@.s, kept(&o, h), forall|q: usize| #[trigger] h.t@.fp.contains(q) ==> o.t@.fp.contains(q), down_r(h, cur_node.node.a), cur_node.height == h.t@.ht(cur_node.node.a),
    ensures cur_node.height == 0,
    decreases cur_node.height,
//@at /let mut last_kv/
 let ghost h1 = *h; let ghost c = cur_node.node.a; let ghost i = h.n(c).keys.len() - 1; let ghost l = h.n(c).edges[i]; let ghost r = h.n(c).edges[i + 1];
 proof { lemma_pairing(h, c, i); lemma_down(h, c, i); lemma_down(h, c, i + 1); assert(due_r(h, c, l)); }
//@after /let vx_m = last_kv\.merge\(h\);/
 vx_joined(Ghost(h1), Ghost(c), Ghost(i), h);
 proof { d_right(&h1, h, c, l, true); lemma_down(h, c, i); lemma_kept(&o, &h1, h); }
//@after /last_kv\.bulk_steal_left\([^;]*;/
 proof { lemma_bulk_left(&h1, h, c, i, 6 - right_len); }
 vx_shared(Ghost(h1), Ghost(c), Ghost(i), Ghost(h1.n(l).keys.len() - (6 - right_len)), h);
 proof { lemma_kept(&o, &h1, h); }
//@at /let vx_e/
 proof { if right_len >= 6 { d_next_r(h, c); } else { d_right(&h1, h, c, r, false); lemma_down(h, c, i + 1); } }
//@at /\}\s*self\.fix_top\(h\);\s*\}$/
 proof { let t = h.t@; let c = cur_node.node.a; assert forall|q: usize| t.fp.contains(q) implies q == t.root || (#[trigger] h.n(q)).keys.len() >= MINOCC by { assert(due_r(h, c, q)); assert(node_ok(h, &t, q)); } }
//@at /self\.fix_top\(h\);\s*\}$/
 let ghost h2 = *h;
//@at /\}$/
 proof { d_done(&h2, h); lemma_kept(&o, &h2, h); }
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | fix_left_border | C11 C12 C15
//@  heap mut
//@  probe loop
//@  rw /self\.root\.as_mut\(\)/ => self.root.vx_mut()
//@  rw /node::MIN_LEN/ => MIN_LEN
//@  rw /cur_node = first_kv\.merge\(\)\.descend\(\);/ => let vx_m = first_kv.merge(); cur_node = vx_m.descend();
//@  rw /cur_node = first_kv\.left_edge\(\)\.descend\(\);/ => let vx_e = first_kv.left_edge(); cur_node = vx_e.descend();
    requires root_is(old(self), old(h)), shape(old(h), &old(h).t@), sorted(old(h).t@.s),
        forall|q: usize| old(h).t@.fp.contains(q) && q != old(h).t@.root && !leftmost(old(h), q) ==> (#[trigger] old(h).n(q)).keys.len() >= MINOCC,
    ensures root_is(final(self), final(h)), final(self).length == old(self).length, tree(final(h), &final(h).t@), final(h).t@.s == old(h).t@.s, kept(old(h), final(h)), forall|q: usize| #[trigger] final(h).t@.fp.contains(q) ==> old(h).t@.fp.contains(q),
//@body
    let ghost o = *h;
//@at /let mut cur_node/
 proof { let t = h.t@; assert forall|q: usize| t.fp.contains(q) implies #[trigger] due_l(h, t.root, q) by { assert(node_ok(h, &t, q)); assert(o.t@.fp.contains(q)); if q != t.root && t.ht(q) == t.ht(t.root) { lemma_apart(h, &t, q, t.root); } } }
//@loop 0
    invariant o == *old(h), o.wf(), root_is(self, h), self.length == old(self).length, sorted(h.t@.s), h.t@.s == o.t@.s, kept(&o, h), forall|q: usize| #[trigger] h.t@.fp.contains(q) ==> o.t@.fp.contains(q), down_l(h, cur_node.node.a), cur_node.height == h.t@.ht(cur_node.node.a),
    ensures cur_node.height == 0,
    decreases cur_node.height,
//@at /let mut first_kv/
 let ghost h1 = *h; let ghost c = cur_node.node.a; let ghost l = h.n(c).edges[0]; let ghost r = h.n(c).edges[1];
 proof { lemma_pairing(h, c, 0); lemma_down(h, c, 0); lemma_down(h, c, 1); assert(due_l(h, c, r)); assert(leftmost(h, r) ==> false) by { lemma_siblings(h, &h.t@, c, 0, 1); assert(node_ok(h, &h.t@, l)); } }
//@after /let vx_m = first_kv\.merge\(h\);/
 vx_joined(Ghost(h1), Ghost(c), Ghost(0), h);
 proof { d_left(&h1, h, c, true); lemma_down(h, c, 0); lemma_kept(&o, &h1, h); }
//@after /first_kv\.bulk_steal_right\([^;]*;/
 proof { lemma_bulk_right(&h1, h, c, 0, 6 - left_len); }
 vx_shared(Ghost(h1), Ghost(c), Ghost(0), Ghost(h1.n(l).keys.len() + (6 - left_len)), h);
 proof { lemma_kept(&o, &h1, h); }
//@at /let vx_e/
 proof { if left_len >= 6 { d_next_l(h, c); } else { d_left(&h1, h, c, false); lemma_down(h, c, 0); } }
//@at /\}\s*self\.fix_top\(h\);\s*\}$/
 proof { let t = h.t@; let c = cur_node.node.a; assert forall|q: usize| t.fp.contains(q) implies q == t.root || (#[trigger] h.n(q)).keys.len() >= MINOCC by { assert(due_l(h, c, q)); assert(node_ok(h, &t, q)); } }
//@at /self\.fix_top\(h\);\s*\}$/
 let ghost h2 = *h;
//@at /\}$/
 proof { d_done(&h2, h); lemma_kept(&o, &h2, h); }
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | fix_right_edge | C11 C12 C15
//@  heap mut
//@  probe loop
//@  rw /self\.root\.as_mut\(\)/ => self.root.vx_mut()
//@  rw /node::MIN_LEN/ => MIN_LEN
//@  rw /Err\(_\) => (?:unreachable!|vx_unreachable)\(\),/ => Err(_) => vx_never(),
    requires root_is(old(self), old(h)), shape(old(h), &old(h).t@), sorted(old(h).t@.s), old(h).t@.ht(old(h).t@.root) > 0 ==> old(h).n(old(h).t@.root).keys.len() > 0,
        forall|q: usize| old(h).t@.fp.contains(q) && q != old(h).t@.root && !rightmost(old(h), q) ==> (#[trigger] old(h).n(q)).keys.len() >= 9,
    ensures root_is(final(self), final(h)), final(self).length == old(self).length, tree(final(h), &final(h).t@), final(h).t@.s == old(h).t@.s, kept(old(h), final(h)),
//@body
    let ghost o = *h;
    proof { let t = h.t@; assert(node_ok(h, &t, t.root)); assert forall|q: usize| t.fp.contains(q) implies #[trigger] full_r(h, t.root, q) by { assert(node_ok(h, &t, q)); if q != t.root && t.ht(q) == t.ht(t.root) { lemma_apart(h, &t, q, t.root); } } }
//@loop 0
    invariant o == *old(h), o.wf(), root_is(self, h), self.length == old(self).length, sorted(h.t@.s), h.t@.s == o.t@.s, kept(&o, h), going_r(h, cur_node.node.a), cur_node.height == h.t@.ht(cur_node.node.a),
    ensures cur_node.height == 0,
    decreases cur_node.height,
//@at /let mut last_edge/
 let ghost h1 = *h; let ghost c = cur_node.node.a; let ghost i = h.n(c).keys.len() - 1; let ghost l = h.n(c).edges[i]; let ghost r = h.n(c).edges[i + 1];
 proof { lemma_pairing(h, c, i); lemma_down(h, c, i); lemma_down(h, c, i + 1); assert(full_r(h, c, l)); }
//@after /last_kv\.bulk_steal_left\([^;]*;/
 proof { lemma_bulk_left(&h1, h, c, i, 5 - right_child_len); }
 vx_shared(Ghost(h1), Ghost(c), Ghost(i), Ghost(h1.n(l).keys.len() - (5 - right_child_len)), h);
 proof { lemma_kept(&o, &h1, h); d_going(&h1, h, c); lemma_down(h, c, i + 1); }
//@at /cur_node = last_edge/
 proof { if right_child_len >= 5 { d_going0(h, c); } }
//@at /\}$/
 proof { let t = h.t@; let c = cur_node.node.a; assert forall|q: usize| t.fp.contains(q) implies #[trigger] occ_ok(h, &t, q) by { assert(full_r(h, c, q)); assert(node_ok(h, &t, q)); } }
//@end
}
}
fn main() {}
