// Trees built in order. src/btree/map.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
use core::borrow::Borrow;
verus! {
//@assume treebulk.rs
//@include build_model.rsi
//@threads ensure_root_is_owned last_leaf_edge ascend push push_level new_leaf from_sorted_iter
/// an iterator that yields finitely many items
pub trait Src<T>: Sized {
    spec fn good(&self) -> bool;
    spec fn rest(&self) -> Seq<T>;
    fn next(&mut self) -> (r: Option<T>)
        requires old(self).good(),
        ensures final(self).good(), match r { Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() },
    ;
}
/// Result::expect of something that fails only when there is no memory left: a panic then, which is what these functions say they do
#[verifier::external_body]
pub fn vx_expect<T>(r: Result<T, TryReserveError>) -> (x: T) ensures r == Ok::<T, TryReserveError>(x) { unimplemented!() }
/// the same node, for as long as needed (in the source, the reference is into the root itself)
pub fn vx_free<'a, 'b, K, V, T>(n: NodeRef<marker::Mut<'a>, K, V, T>) -> (r: NodeRef<marker::Mut<'b>, K, V, T>)
    ensures r.node == n.node, r.height == n.height,
{ NodeRef { height: n.height, node: n.node, _marker: PhantomData } }
impl<K: Ord, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | from_sorted_iter | C11 C12 C15 C16
//@  heap mut
//@  probe loop
//@  sig /<I: Iterator<Item = \(K, V\)>>/ => <I: Src<(K, V)>>
//@  rw /self\.ensure_root_is_owned\(\)\.expect\("[^"]*"\);/ => vx_expect(self.ensure_root_is_owned());
//@  rw /self\.root\.as_mut\(\)/ => self.root.vx_mut()
//@  rw /let mut cur_node = last_leaf_edge\(self\.root\.vx_mut\(\)\)\.into_node\(\);/ => let vx_e = last_leaf_edge(self.root.vx_mut()); let mut cur_node = vx_e.into_node();
//@  rw /cur_node = last_leaf_edge\(open_node\.forget_type\(\)\)\.into_node\(\);/ => let vx_f = last_leaf_edge(open_node.forget_type()); cur_node = vx_f.into_node();
//@  rw /let mut open_node;/ => let mut open_node: NodeRef<marker::Mut, K, V, marker::Internal>;
//@  rw /node::CAPACITY/ => CAPACITY
//@  rw /node::Root::new_leaf\(\)\.expect\("[^"]*"\)/ => vx_expect(Root::new_leaf())
//@  rw /right_tree\.push_level\(\)\.expect\("[^"]*"\);/ => vx_expect(right_tree.push_level());
//@  rw /open_node = node\.into_root_mut\(\)\.push_level\(\)\.expect\("[^"]*"\);/ => vx_is_root(&node, &self.root); let vx_n = vx_expect(self.root.push_level()); open_node = vx_free(vx_n);
    requires old(self).ok(old(h)), old(h).t@.s.len() == 0, iter.good(), sorted(iter.rest()), iter.rest().len() <= usize::MAX,
    ensures root_is(final(self), final(h)), final(self).length == final(h).t@.s.len(), final(h).t@.s == iter.rest(), sorted(final(h).t@.s), building(final(h)), topfull(final(h)), kept(old(h), final(h)),
//@body
    let ghost o = *h; let ghost all = iter.rest();
//@at /let vx_e/
 let ghost ho = *h;
 proof { let t = h.t@; assert(node_ok(h, &t, t.root)); assert forall|q: usize| t.fp.contains(q) implies #[trigger] full(h, q) by { assert(node_ok(h, &t, q)); } assert(building(h)); assert(occ_ok(h, &t, t.root)); assert(h.t@.s + iter.rest() =~= all); lemma_starts(h); }
//@at /\{ let mut vx_src1/
 proof { lemma_starts(h); lemma_last_leaf(h, h.t@.root, cur_node.node.a, vx_e.idx as int); }
//@loop 0
    invariant vx_src1.good(), o == *old(h), o.wf(), building(h), topfull(h), root_is(self, h), self.length == h.t@.s.len(), h.t@.s + vx_src1.rest() == all, all.len() <= usize::MAX, kept(&o, h), last_leaf(h, cur_node.node.a), cur_node.height == 0,
    ensures vx_src1.rest().len() == 0,
    decreases vx_src1.rest().len(),
//@at /if cur_node\.len/
 let ghost h0 = *h; let ghost x = (key, value);
 proof { let p = cur_node.node.a; assert(node_ok(h, &h.t@, p)); lemma_last_leaf(h, p, p, h.n(p).keys.len() as int); assert(h.t@.s.push(x) + vx_src1.rest() =~= all); }
//@after /cur_node\.push\([^;]*;/
 vx_pushed(Ghost(h0), Ghost(cur_node.node.a), Ghost(key), Ghost(value), h);
//@at /loop \{/
 proof { lemma_solid(h, cur_node.node.a); }
//@loop 1
    invariant_except_break *h == h0, test_node.in_tree(h), rightmost(h, test_node.node.a), solid(h, test_node.height as int),
    invariant building(&h0), topfull(&h0), root_is(self, h), h0.t@.s.len() < all.len() <= usize::MAX, self.length == h0.t@.s.len(), h0.wf(),
    ensures open_at(h, open_node.node.a), open_node.height == h.t@.ht(open_node.node.a), h.n(open_node.node.a).ok && !h.n(open_node.node.a).leaf && h.linked(open_node.node.a), kept(&h0, h), h.t@.s == h0.t@.s,
    decreases h.t@.ht(h.t@.root) - test_node.height,
//@at /match test_node\.ascend/
 proof { lemma_rise(h, test_node.node.a); lemma_room(h); }
//@at /let vx_n = vx_expect/
 let ghost r0 = h.t@.root;
//@after /open_node = vx_free[^;]*;/
 vx_hold(Ghost(h0.t@), h);
 vx_raised(Ghost(h0), Ghost(open_node.node.a), h);
//@at /let tree_height/
 proof { lemma_up(h, open_node.node.a); }
 let ghost h1 = *h; let ghost u = open_node.node.a;
//@after /let mut right_tree[^;]*;/
 let ghost mut g2 = one_t::<K, V>(right_tree.node.ptr.a);
 proof { lemma_aside_one(&h1, h, right_tree.node.ptr.a); }
//@loop 2
    invariant h1.wf(), aside(&h1, h, &g2), g2.s.len() == 0, g2.root == right_tree.node.ptr.a, g2.ht(g2.root) == right_tree.height, right_tree.height == vx_i, tree_height < 0x1_0000_0000,
//@at /vx_expect\(right_tree\.push_level/
 let ghost h2 = *h;
//@after /vx_expect\(right_tree\.push_level[^;]*;/
 vx_hold(Ghost(h1.t@), h);
 proof { let w = right_tree.node.ptr.a; lemma_aside_grow(&h1, &h2, h, &g2, w); g2 = grow_t(&g2, w); }
//@at /open_node\.push/
 let ghost h3 = *h;
//@after /open_node\.push\([^;]*;/
 vx_grafted(Ghost(h1), Ghost(h3), Ghost(u), Ghost(g2), Ghost(key), Ghost(value), h);
 proof { lemma_kept(&h0, &h1, h); }
//@after /cur_node = vx_f[^;]*;/
 proof { lemma_last_leaf(h, u, cur_node.node.a, vx_f.idx as int); }
//@at /self\.length \+= 1/
 proof { lemma_kept(&o, &h0, h); }
//@end
}
}
fn main() {}
