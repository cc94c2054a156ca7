// Taking entries out of the tree. src/btree/map.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
use core::borrow::Borrow;
verus! {
//@assume treemut.rs
//@include del_model.rsi
use InsertResult::*;
use ForceResult::*;
use SearchResult::*;
//@threads handle_underfull_node remove_kv remove remove_entry merge steal_left steal_right can_merge pop_level kv_mut first_leaf_edge
//@type src/btree/map.rs | enum UnderflowResult<'a, K, V> { AtRoot, EmptyParent(NodeRef<marker::Mut<'a>, K, V, marker::Internal>), Merged(NodeRef<marker::Mut<'a>, K, V, marker::Internal>), Stole(NodeRef<marker::Mut<'a>, K, V, marker::Internal>), } => pub enum UnderflowResult<'a, K, V> { AtRoot, EmptyParent(NodeRef<marker::Mut<'a>, K, V, marker::Internal>), Merged(NodeRef<marker::Mut<'a>, K, V, marker::Internal>), Stole(NodeRef<marker::Mut<'a>, K, V, marker::Internal>) }
use UnderflowResult::*;
/// the tree after a step of making up for entries taken out: the same entries, the same root
pub open spec fn steps<K, V>(o: &Heap<K, V>, h: &Heap<K, V>) -> bool { h.t@.s == o.t@.s && h.t@.root == o.t@.root && h.t@.ht(h.t@.root) == o.t@.ht(o.t@.root) && kept(o, h) }
pub proof fn d_merged<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, u: usize, i: int, c: usize)
    requires lean(o, c), o.t@.fp.contains(u), o.t@.ht(u) > 0, 0 <= i < o.n(u).keys.len(), c == o.n(u).edges[i] || c == o.n(u).edges[i + 1], o.n(c).keys.len() < 5,
        ({ let g = merge_t(&snap(o), u, i); let l = o.n(u).edges[i]; let r = o.n(u).edges[i + 1];
        &&& h.t@ == tree_of(&g) && shape(h, &h.t@) && g.s == o.t@.s && g.root == o.t@.root && h.n(u).keys.len() == o.n(u).keys.len() - 1 && h.n(l).keys.len() == o.n(l).keys.len() + o.n(r).keys.len() + 1
        &&& (forall|q: usize| g.in_(q) ==> #[trigger] g.ht(q) == o.t@.ht(q))
        &&& (forall|q: usize| g.in_(q) == (#[trigger] o.t@.fp.contains(q) && q != r))
        &&& h.dom() == o.dom().remove(r) && stay(o, h)
        &&& forall|q: usize| g.in_(q) && q != u && q != l ==> (#[trigger] h.n(q)).keys.len() == o.n(q).keys.len() }),
    ensures lean0(h, u), steps(o, h), h.n(u).keys.len() > 0 ==> lean(h, u), h.t@.fp.contains(u), h.t@.ht(u) == o.t@.ht(u),
{
    let g = merge_t(&snap(o), u, i); let l = o.n(u).edges[i]; let r = o.n(u).edges[i + 1]; let t = o.t@;
    lemma_pairing(o, u, i);
    assert(occ_ok(o, &t, u));
    assert(l != c ==> occ_ok(o, &t, l)); assert(r != c ==> occ_ok(o, &t, r));
    assert(g.in_(u) && g.in_(t.root) && g.in_(l));
    assert forall|q: usize| h.t@.fp.contains(q) && q != u implies #[trigger] occ_ok(h, &h.t@, q) by {
        assert(g.in_(q)); assert(t.fp.contains(q)); assert(h.t@.ht(q) == g.ht(q));
        if q != l { if q != c { assert(occ_ok(o, &t, q)); } assert(h.n(q).keys.len() == o.n(q).keys.len()); } }
    assert forall|q: usize| #[trigger] foreign(h, q) == foreign(o, q) by { assert(g.in_(q) == (t.fp.contains(q) && q != r)); }
}
pub proof fn d_stolen<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, u: usize, i: int, m: int, c: usize)
    requires lean(o, c), o.t@.fp.contains(u), o.t@.ht(u) > 0, 0 <= i < o.n(u).keys.len(), o.n(c).keys.len() < 5,
        ({ let g = share_t(&snap(o), u, i, m); let l = o.n(u).edges[i]; let r = o.n(u).edges[i + 1]; let n = o.n(l).keys.len() + o.n(r).keys.len();
        &&& n >= 11 && (c == l && m == o.n(l).keys.len() + 1 || c == r && m == o.n(l).keys.len() - 1)
        &&& h.t@ == tree_of(&g) && shape(h, &h.t@) && g.s == o.t@.s && g.root == o.t@.root && h.n(u).keys.len() == o.n(u).keys.len() && h.n(l).keys.len() == m && h.n(r).keys.len() == n - m
        &&& (forall|q: usize| g.in_(q) ==> #[trigger] g.ht(q) == o.t@.ht(q))
        &&& (forall|q: usize| g.in_(q) == #[trigger] o.t@.fp.contains(q))
        &&& h.dom() == o.dom() && stay(o, h)
        &&& forall|q: usize| g.in_(q) && q != u && q != l && q != r ==> (#[trigger] h.n(q)).keys.len() == o.n(q).keys.len() }),
    ensures tree(h, &h.t@), steps(o, h),
{
    let g = share_t(&snap(o), u, i, m); let l = o.n(u).edges[i]; let r = o.n(u).edges[i + 1]; let t = o.t@;
    lemma_pairing(o, u, i);
    assert(occ_ok(o, &t, u));
    assert(g.in_(t.root));
    assert forall|q: usize| h.t@.fp.contains(q) implies #[trigger] occ_ok(h, &h.t@, q) by {
        assert(g.in_(q)); assert(t.fp.contains(q)); assert(h.t@.ht(q) == g.ht(q));
        if q != l && q != r { if q != c { assert(occ_ok(o, &t, q)); } if q != u { assert(h.n(q).keys.len() == o.n(q).keys.len()); } } }
    assert forall|q: usize| #[trigger] foreign(h, q) == foreign(o, q) by { assert(g.in_(q) == t.fp.contains(q)); }
}
/// how many entries the nodes of a heap that agrees with a tree have
pub proof fn lemma_lens<K, V>(h: &Heap<K, V>, g: &PT<K, V>)
    requires agree(h, g, 0), pshape(g), !g.in_(0),
    ensures forall|q: usize| g.in_(q) ==> (#[trigger] h.n(q)).keys.len() == g.kv(q).len(),
{
    assert forall|q: usize| g.in_(q) implies (#[trigger] h.n(q)).keys.len() == g.kv(q).len() by { assert(agn(h, g, q)); assert(zip(h.n(q)).len() == h.n(q).keys.len()); }
}
pub proof fn lemma_zero<K, V>(h: &Heap<K, V>)
    requires shape(h, &h.t@),
    ensures !h.t@.fp.contains(0),
{ if h.t@.fp.contains(0) { assert(node_ok(h, &h.t@, 0)); } }
/// a merge below u is over
pub fn vx_merged<K, V>(Ghost(o): Ghost<Heap<K, V>>, Ghost(u): Ghost<usize>, Ghost(i): Ghost<int>, Ghost(c): Ghost<usize>, h: &mut Heap<K, V>)
    requires lean(&o, c), o.t@.fp.contains(u), o.t@.ht(u) > 0, 0 <= i < o.n(u).keys.len(), c == o.n(u).edges[i] || c == o.n(u).edges[i + 1], o.n(c).keys.len() < 5,
        ({ let ou = o.n(u); let l = ou.edges[i]; let r = ou.edges[i + 1]; let ol = o.n(l); let or = o.n(r);
            &&& ol.keys.len() + or.keys.len() + 1 <= 11 && moved(old(h), &o, u, l, r, true)
            &&& old(h).n(u) == NodeV { keys: ou.keys.remove(i), vals: ou.vals.remove(i), edges: ou.edges.remove(i + 1), ..ou }
            &&& old(h).n(l) == NodeV { keys: ol.keys.push(ou.keys[i]) + or.keys, vals: ol.vals.push(ou.vals[i]) + or.vals, edges: ol.edges + or.edges, ..ol } }),
    ensures lean0(final(h), u), steps(&o, final(h)), final(h).n(u).keys.len() > 0 ==> lean(final(h), u), final(h).t@.fp.contains(u), final(h).t@.ht(u) == o.t@.ht(u),
{
    let ghost g = merge_t(&snap(&o), u, i);
    proof { lemma_zero(&o); lemma_merge(&o, h, u, i); assert(!g.in_(0)); lemma_lens(h, &g); lemma_pairing(&o, u, i); }
    vx_set_shape(Ghost(g), h);
    proof { d_merged(&o, h, u, i, c); }
}
/// an entry has come to c by way of u
pub fn vx_stolen<K, V>(Ghost(o): Ghost<Heap<K, V>>, Ghost(u): Ghost<usize>, Ghost(i): Ghost<int>, Ghost(m): Ghost<int>, Ghost(c): Ghost<usize>, h: &mut Heap<K, V>)
    requires lean(&o, c), o.t@.fp.contains(u), o.t@.ht(u) > 0, 0 <= i < o.n(u).keys.len(), o.n(c).keys.len() < 5, shared(&o, old(h), u, i, m),
        ({ let l = o.n(u).edges[i]; let r = o.n(u).edges[i + 1]; o.n(l).keys.len() + o.n(r).keys.len() >= 11 && (c == l && m == o.n(l).keys.len() + 1 || c == r && m == o.n(l).keys.len() - 1) }),
    ensures tree(final(h), &final(h).t@), steps(&o, final(h)),
{
    let ghost g = share_t(&snap(&o), u, i, m);
    proof { lemma_zero(&o); lemma_share(&o, h, u, i, m); assert(!g.in_(0)); lemma_lens(h, &g); lemma_pairing(&o, u, i); }
    vx_set_shape(Ghost(g), h);
    proof { d_stolen(&o, h, u, i, m, c); }
}
//@fn src/btree/map.rs | | handle_underfull_node | C11 C12 C15 C16 C17
//@  heap mut
//@  rw /Merged\(handle\.merge\(\)\.into_node\(\)\)/ => let vx_m = handle.merge(); Merged(vx_m.into_node())
    requires lean(old(h), node.node.a), node.in_tree(old(h)), node.node.a != SHARED, node.nv(old(h)).keys.len() < 5,
    ensures r is AtRoot ==> *final(h) == *old(h) && node.node.a == old(h).t@.root,
        !(r is EmptyParent),
        r is Merged ==> {
            let p = r->Merged_0;
            &&& lean0(final(h), p.node.a) && steps(old(h), final(h)) && p.in_tree(final(h)) && p.node.a != SHARED && p.height == node.height + 1 && p.height <= final(h).t@.ht(final(h).t@.root)
            &&& p.nv(final(h)).keys.len() > 0 ==> lean(final(h), p.node.a)
        },
        r is Stole ==> tree(final(h), &final(h).t@) && steps(old(h), final(h)),
//@body
    let ghost o = *h; let ghost c = node.node.a; let ghost t = h.t@;
    proof { lemma_up(h, c); assert(up_ok(h, &t, c)); assert(node_ok(h, &t, t.root)); if c != t.root { assert(occ_ok(h, &t, h.n(c).parent)); } }
//@at /if handle\.can_merge/
 let ghost u = handle.node.node.a; let ghost i = handle.idx as int; let ghost l = o.n(u).edges[i]; let ghost r = o.n(u).edges[i + 1];
 proof { lemma_pairing(&o, u, i); assert(!t.fp.contains(0)) by { if t.fp.contains(0) { assert(node_ok(&o, &t, 0)); } } assert(is_left ==> c == r); assert(!is_left ==> c == l); assert(occ_ok(&o, &t, if c == l { r } else { l })); }
//@at /Merged\(vx_m/
 vx_merged(Ghost(o), Ghost(u), Ghost(i), Ghost(c), h);
//@after /handle\.steal_left\(h\);/
 proof { lemma_steal_left(&o, h, u, i); }
 vx_stolen(Ghost(o), Ghost(u), Ghost(i), Ghost(o.n(l).keys.len() - 1), Ghost(c), h);
//@after /handle\.steal_right\(h\);/
 proof { lemma_steal_right(&o, h, u, i); }
 vx_stolen(Ghost(o), Ghost(u), Ghost(i), Ghost((o.n(l).keys.len() + 1) as int), Ghost(c), h);
//@end
/// the tree when an entry of the leaf w has been taken out
pub proof fn d_taken<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, w: usize, i: int)
    requires tree(o, &o.t@), o.t@.fp.contains(w), o.t@.ht(w) == 0, w != SHARED, 0 <= i < o.n(w).keys.len(), h.dom() == o.dom(),
        ({ let g = take_t(&snap(o), w, i); h.t@ == tree_of(&g) && shape(h, &h.t@) && h.n(w).keys.len() == o.n(w).keys.len() - 1 && g.root == o.t@.root
            && (forall|q: usize| g.in_(q) ==> #[trigger] g.lab[q] == take_lab(o.t@.lab[q], o.t@.off(w) + i))
            && (forall|q: usize| g.in_(q) == #[trigger] o.t@.fp.contains(q))
            && forall|q: usize| g.in_(q) && q != w ==> (#[trigger] h.n(q)).keys.len() == o.n(q).keys.len() }),
        h.t@.s == o.t@.s.remove(o.t@.off(w) + i), stay(o, h),
    ensures lean(h, w), kept(o, h), h.t@.ht(h.t@.root) == o.t@.ht(o.t@.root), h.t@.ht(w) == 0,
{
    let g = take_t(&snap(o), w, i); let t = o.t@;
    assert(node_ok(o, &t, w)); assert(occ_ok(o, &t, w));
    lemma_remove_sorted(t.s, t.off(w) + i);
    assert(g.in_(w) && g.in_(t.root));
    assert forall|q: usize| h.t@.fp.contains(q) && q != w implies #[trigger] occ_ok(h, &h.t@, q) by { assert(g.in_(q)); assert(t.fp.contains(q)); assert(occ_ok(o, &t, q)); assert(h.t@.lab[q] == g.lab[q]); assert(h.n(q).keys.len() == o.n(q).keys.len()); }
    assert forall|q: usize| #[trigger] foreign(h, q) == foreign(o, q) by { assert(g.in_(q) == t.fp.contains(q)); }
}
/// and the entry i of p has become another
pub proof fn d_swapped<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, w: usize, p: usize, i: int, x: (K, V))
    requires lean(o, w), h.dom() == o.dom(), o.t@.fp.contains(p),
        ({ let g = set_t(&snap(o), p, i, x); h.t@ == tree_of(&g) && shape(h, &h.t@) && g.root == o.t@.root
            && (forall|q: usize| g.in_(q) == #[trigger] o.t@.fp.contains(q)) && (forall|q: usize| g.in_(q) ==> #[trigger] g.lab[q] == o.t@.lab[q])
            && forall|q: usize| g.in_(q) ==> (#[trigger] h.n(q)).keys.len() == o.n(q).keys.len() }),
        sorted(h.t@.s), stay(o, h),
    ensures lean(h, w), kept(o, h), h.t@.ht(h.t@.root) == o.t@.ht(o.t@.root), h.t@.ht(w) == o.t@.ht(w),
{
    let g = set_t(&snap(o), p, i, x); let t = o.t@;
    assert(g.in_(w) && g.in_(t.root));
    assert forall|q: usize| h.t@.fp.contains(q) && q != w implies #[trigger] occ_ok(h, &h.t@, q) by { assert(g.in_(q)); assert(t.fp.contains(q)); assert(occ_ok(o, &t, q)); assert(h.t@.lab[q] == g.lab[q]); assert(h.n(q).keys.len() == o.n(q).keys.len()); }
    if w == h.t@.root { assert(occ_ok(o, &t, w)); assert(h.n(w).keys.len() == o.n(w).keys.len()); }
    assert forall|q: usize| #[trigger] foreign(h, q) == foreign(o, q) by { assert(g.in_(q) == t.fp.contains(q)); }
}
/// and the root without entries is gone
pub proof fn d_popped<K, V>(o: &Heap<K, V>, h: &Heap<K, V>)
    requires lean0(o, o.t@.root), o.t@.ht(o.t@.root) > 0, o.n(o.t@.root).keys.len() == 0, h.dom() == o.dom().remove(o.t@.root),
        ({ let g = shrink_t(&snap(o)); let r = o.t@.root;
        &&& h.t@ == tree_of(&g) && shape(h, &h.t@) && g.s == o.t@.s && g.root == o.n(r).edges[0] && g.ht(g.root) == o.t@.ht(r) - 1
        &&& (forall|q: usize| g.in_(q) ==> #[trigger] g.lab[q] == o.t@.lab[q])
        &&& (forall|q: usize| g.in_(q) == (#[trigger] o.t@.fp.contains(q) && q != r))
        &&& forall|q: usize| g.in_(q) ==> (#[trigger] h.n(q)).keys.len() == o.n(q).keys.len() }), stay(o, h),
    ensures tree(h, &h.t@), kept(o, h),
{
    let g = shrink_t(&snap(o)); let t = o.t@;
    assert(g.in_(g.root));
    assert forall|q: usize| h.t@.fp.contains(q) implies #[trigger] occ_ok(h, &h.t@, q) by { assert(g.in_(q)); assert(t.fp.contains(q)); assert(occ_ok(o, &t, q)); assert(h.t@.lab[q] == g.lab[q]); assert(h.n(q).keys.len() == o.n(q).keys.len()); }
    assert forall|q: usize| #[trigger] foreign(h, q) == foreign(o, q) by { assert(g.in_(q) == (t.fp.contains(q) && q != t.root)); }
}
/// into_root_mut: what it gives is the root the entry came from, if the node is that root
pub fn vx_is_root<'a, K, V, T>(n: &NodeRef<marker::Mut<'a>, K, V, T>, root: &Root<K, V>)
    requires n.node.a == root.node.ptr.a, n.height == root.height,
{ }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
//@fn src/btree/map.rs | impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> | remove_kv | C11 C12 C15 C16 C17 C19
//@  heap mut
//@  rw / as \*mut [KV];/ => ;
//@  rw /let to_remove = first_leaf_edge\(internal\.right_edge\(\)\.descend\(\)\)\s*\.right_kv\(\)\s*\.ok\(\);/ => let vx_d = internal.right_edge().descend(); let vx_e = first_leaf_edge(vx_d); let to_remove = vx_e.right_kv().ok();
//@  rw /match handle_underfull_node\(cur_node\) \{/ => let vx_u = handle_underfull_node(cur_node); match vx_u {
//@  rw /node::CAPACITY/ => CAPACITY
//@  rw /EmptyParent\(_\) => (?:unreachable!|vx_unreachable)\(\),/ => EmptyParent(_) => { vx_unreachable(); return (old_key, old_val); }
//@  rw /mem::replace\(&mut \*key_loc, key\)/ => vx_replace(key_loc, key, &mut h.ks)
//@  rw /mem::replace\(&mut \*val_loc, val\)/ => vx_replace(val_loc, val, &mut h.vs)
//@  rw /parent\.into_root_mut\(\)\.pop_level\(\);/ => vx_is_root(&parent, &*self.root); self.root.pop_level();
    requires self.ok(old(h)),
    ensures map_is(*final(self.root), *final(self.length), final(h)), kept(old(h), final(h)),
        final(h).t@.s == old(h).t@.s.remove(self.i(old(h))), r == old(h).t@.s[self.i(old(h))],
//@body
    let ghost o = *h; let ghost p = self.handle.node.node.a; let ghost i = self.handle.idx as int; let ghost e = self.i(h); let ghost t = h.t@;
    proof { lemma_snap(h); lemma_zero(h); assert(node_ok(h, &t, p)); lemma_kvpos(h, p, i); }
//@after /let \(hole, old_key, old_val\) = leaf\.remove\(h\);/
 let ghost g = take_t(&snap(&o), p, i);
 proof { lemma_take(&o, h, p, i); lemma_lens(h, &g); }
 vx_set_shape(Ghost(g), h);
 proof { d_taken(&o, h, p, i); }
//@at /let vx_d =/
 proof { lemma_down(h, p, i + 1); lemma_down(h, p, i); }
//@after /let vx_e = [^;]*;/
 let ghost w = vx_e.node.node.a;
 proof { assert(node_ok(h, &t, w)); assert(occ_ok(h, &t, w)); assert(up_ok(h, &t, w)); assert(node_ok(h, &t, t.root)); assert(w != SHARED) by { if w == t.root { assert(t.ht(p) <= t.ht(t.root)); } } }
//@after /let \(hole, key, val\) = to_remove\.remove\(h\);/
 let ghost g = take_t(&snap(&o), w, 0);
 proof { lemma_take(&o, h, w, 0); lemma_lens(h, &g); }
 vx_set_shape(Ghost(g), h);
 proof { d_taken(&o, h, w, 0); }
 let ghost h1 = *h;
 proof { assert(node_ok(h, &h.t@, p)); lemma_zero(h); lemma_down(&o, p, i); assert(kvpos(h, &h.t@, p, i) == e); assert(t.s.remove(e + 1).update(e, t.s[e + 1]) =~= t.s.remove(e)); assert(sorted(t.s.remove(e))) by { lemma_remove_sorted(t.s, e); } }
//@after /let old_val = [^;]*;/
 let ghost g = set_t(&snap(&h1), p, i, (key, val));
 proof { assert(h.n(p) =~~= NodeV { keys: h1.n(p).keys.update(i, key), vals: h1.n(p).vals.update(i, val), ..h1.n(p) }); lemma_swap(&h1, h, p, i, key, val); lemma_lens(h, &g); }
 vx_set_shape(Ghost(g), h);
 proof { d_swapped(&h1, h, w, p, i, (key, val)); }
//@at /while cur_node/
 proof { assert(node_ok(h, &h.t@, cur_node.node.a)); }
//@loop 0
    invariant_except_break lean(h, cur_node.node.a), cur_node.in_tree(h), cur_node.node.a != SHARED, h.live(cur_node.node.a),
        self.root.node.ptr.a == h.t@.root, self.root.height == h.t@.ht(h.t@.root),
    invariant o.wf(), kept(&o, h), h.t@.s == o.t@.s.remove(e), *self.length == h.t@.s.len(),
    ensures map_is(*self.root, *self.length, h),
    decreases h.t@.ht(h.t@.root) - cur_node.height,
//@at /let vx_u =/
 let ghost h1 = *h;
//@at /match vx_u/
 proof { lemma_kept(&o, &h1, h); lemma_zero(h); if vx_u is Merged { assert(node_ok(h, &h.t@, vx_u->Merged_0.node.a)); lemma_snap(h); } }
//@at /vx_is_root/
 let ghost h2 = *h;
//@after /self\.root\.pop_level\(h\);/
 let ghost g = shrink_t(&snap(&h2));
 proof { lemma_pop(&h2, h); lemma_lens(h, &g); }
 vx_set_shape(Ghost(g), h);
 proof { d_popped(&h2, h); lemma_kept(&o, &h2, h); }
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> | remove_entry | C11 C12 C15 C17 C19
//@  heap mut
    requires self.ok(old(h)),
    ensures map_is(*final(self.root), *final(self.length), final(h)), kept(old(h), final(h)),
        final(h).t@.s == old(h).t@.s.remove(self.i(old(h))), r == old(h).t@.s[self.i(old(h))],
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> | remove | C11 C12 C15 C17 C19
//@  heap mut
    requires self.ok(old(h)),
    ensures map_is(*final(self.root), *final(self.length), final(h)), kept(old(h), final(h)),
        final(h).t@.s == old(h).t@.s.remove(self.i(old(h))), r == old(h).t@.s[self.i(old(h))].1,
//@end
}
impl<K: Ord, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | remove | C11 C12 C15 C16 C17 C19
//@  heap mut
//@  rw /\bsearch::/ => 
//@  rw /self\.root\.as_mut\(\)/ => self.root.vx_mut()
//@  rw /length: &mut self\.length,\s*_marker: PhantomData,/ => length: &mut self.length, root: &mut self.root,
    requires old(self).ok(old(h)),
    ensures final(self).ok(final(h)), kept(old(h), final(h)),
        match r {
            None => final(h).t@.s == old(h).t@.s && !Self::has(old(h), qrank(key)),
            Some(x) => exists|i: int| 0 <= i < old(h).t@.s.len() && krank((#[trigger] old(h).t@.s[i]).0) == qrank(key) && x == old(h).t@.s[i].1 && final(h).t@.s == old(h).t@.s.remove(i),
        },
//@body
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@end
}
impl<K: Ord> BTreeMap<K, ()> {
//@fn src/btree/map.rs | impl<K, Q: ?Sized> super::Recover<Q> for BTreeMap<K, ()> where K: Borrow<Q> + Ord, Q: Ord, | take | C11 C12 C15 C17 C19
//@  heap mut
//@  values ()
//@  as recover_take
//@  sig /fn take/ => fn take<Q: ?Sized>
//@  sig /$/ => where K: Borrow<Q> + Ord, Q: Ord
//@  rw /\bsearch::/ => 
//@  rw /self\.root\.as_mut\(\)/ => self.root.vx_mut()
//@  rw /length: &mut self\.length,\s*_marker: PhantomData,/ => length: &mut self.length, root: &mut self.root,
    requires old(self).ok(old(h)),
    ensures final(self).ok(final(h)), kept(old(h), final(h)),
        match r {
            None => final(h).t@.s == old(h).t@.s && !Self::has(old(h), qrank(key)),
            Some(x) => exists|i: int| 0 <= i < old(h).t@.s.len() && krank((#[trigger] old(h).t@.s[i]).0) == qrank(key) && x == old(h).t@.s[i].0 && final(h).t@.s == old(h).t@.s.remove(i),
        },
//@body
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@end
//@fn src/btree/map.rs | impl<K, Q: ?Sized> super::Recover<Q> for BTreeMap<K, ()> where K: Borrow<Q> + Ord, Q: Ord, | get | C13 C19
//@  heap ref
//@  values ()
//@  as recover_get
//@  sig /fn get/ => fn get<Q: ?Sized>
//@  sig /$/ => where K: Borrow<Q> + Ord, Q: Ord
//@  sig /&K\b/ => RP<K>
//@  rw /\bsearch::/ => 
    requires self.ok(h),
    ensures match r { Some(x) => exists|i: int| entry_k(x, h, i) && krank((#[trigger] h.t@.s[i]).0) == qrank(key), None => !Self::has(h, qrank(key)) },
//@body
    proof { assert(node_ok(h, &h.t@, h.t@.root)); }
//@end
//@fn src/btree/map.rs | impl<K, Q: ?Sized> super::Recover<Q> for BTreeMap<K, ()> where K: Borrow<Q> + Ord, Q: Ord, | replace | C03 C11 C12 C15 C16 C17 C19
//@  heap mut
//@  values ()
//@  as recover_replace
//@  rw /\bsearch::/ => 
//@  rw /self\.root\.as_mut\(\)/ => self.root.vx_mut()
//@  rw /self\.ensure_root_is_owned\(\)\?;/ => match self.ensure_root_is_owned() { Ok(_) => { }, Err(e) => { return Err(e); } }
//@  rw /search_tree::<marker::Mut<'_>, K, \(\), K>\(/ => search_tree(
//@  rw /Ok\(Some\(mem::replace\(handle\.into_kv_mut\(\)\.0, key\)\)\)/ => { let vx_p = handle.into_kv_mut().0; let vx_r = vx_replace(vx_p, key, &mut h.ks); Ok(Some(vx_r)) }
//@  rw /VacantEntry \{(.*?)\}\s*\.try_insert\(\(\)\)\?;/ => let vx_e = VacantEntry {\1}; match vx_e.try_insert(()) { Ok(_) => { }, Err(e) => { return Err(e); } }
//@  rw /length: &mut self\.length,\s*_marker: PhantomData,/ => length: &mut self.length, root: &mut self.root,
    requires old(self).ok(old(h)), old(self).length < usize::MAX,
    ensures final(self).ok(final(h)), kept(old(h), final(h)),
        match r {
            Err(_) => final(h).t@.s == old(h).t@.s,
            Ok(None) => exists|i: int| #[trigger] gap(old(h).t@.s, krank(key), i) && final(h).t@.s == old(h).t@.s.insert(i, (key, ())),
            Ok(Some(x)) => exists|i: int| 0 <= i < old(h).t@.s.len() && krank((#[trigger] old(h).t@.s[i]).0) == krank(key) && x == old(h).t@.s[i].0 && final(h).t@.s == old(h).t@.s.update(i, (key, ())),
        },
//@body
    let ghost o = *h;
    proof { ax_self(&key); }
//@at /match search_tree/
 let ghost h1 = *h;
 proof { assert(node_ok(h, &h.t@, h.t@.root)); assert forall|q: usize| #[trigger] h.t@.fp.contains(q) implies q != SHARED by { assert(up_ok(h, &h.t@, q)); } }
//@at /let vx_p = /
 let ghost p = handle.node.node.a; let ghost j = handle.idx as int; let ghost e = kvpos(h, &h.t@, p, j);
//@at /Ok\(Some\(vx_r\)\)/
 let ghost g = set_t(&snap(&h1), p, j, (key, ()));
 proof {
    assert(h.n(p) =~~= NodeV { keys: h1.n(p).keys.update(j, key), vals: h1.n(p).vals.update(j, ()), ..h1.n(p) });
    assert forall|q: usize| q != p implies #[trigger] h.n(q) == h1.n(q) by {}
    lemma_set(&h1, h, p, j, key, ());
 }
 vx_set_tree(Ghost(g), h);
 proof { assert(kept(&h1, h)); lemma_kept(&o, &h1, h); assert(krank(h1.t@.s[e].0) == krank(key)); }
//@after /match vx_e\.try_insert\(\(\), h\) \{ Ok\(_\) => \{/
 proof { lemma_kept(&o, &h1, h); }
//@after /match vx_e\.try_insert\(\(\), h\) \{ Ok\(_\) => \{ \}, Err\(e\) => \{/
 proof { lemma_same(h, &h1); lemma_kept(&o, &h1, h); }
//@after /match self\.ensure_root_is_owned\(h\) \{ Ok\(_\) => \{ \}, Err\(e\) => \{/
 proof { lemma_same(h, &o); }
//@end
}
}
fn main() {}
