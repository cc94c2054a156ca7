// Changing the tree: entries put in and taken out, nodes split, merged and rebalanced. src/btree/map.rs and the rest of src/btree/node.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
use core::borrow::Borrow;
verus! {
//@assume tree.rs
//@include pure_model.rsi
//@include mut_model.rsi
use InsertResult::*;
//@threads try_spare_nodes insert try_insert try_entry ensure_root_is_owned push_level_spare kv_mut
impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge> {
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge> | try_spare_nodes | C03 C11 C16 C17
//@  probe loop
//@  heap mut
//@  rw /<Box<_> as FallibleBox<_>>::try_new\(unsafe \{\s*(LeafNode::new\(\))\s*\}\)/ => vx_box_leaf(\1, h)
//@  rw /spare\.add_internal\(\)\?/ => (match spare.add_internal() { Ok(x) => x, Err(e) => { vx_back(spare, Ghost(h0), h); return Err(e); } })
    requires shape(old(h), &old(h).t@), self.node.in_tree(old(h)), self.node.height == 0, self.node.node.a != SHARED,
    ensures final(h).wf(), final(h).t == old(h).t,
        r is Err ==> same(final(h), old(h)),
        r is Ok ==> {
            let s = r->Ok_0;
            &&& s.ok(final(h)) && spared(final(h), old(h), &s)
            &&& s.leaf is Some == (self.node.nv(old(h)).keys.len() == 11)
            &&& s.internals@.len() == (if self.node.nv(old(h)).keys.len() == 11 { need(old(h), self.node.node.a, old(h).t@.ht(old(h).t@.root)) } else { 0 })
        },
//@body
    let ghost h0 = *h; let ghost t = h.t@; let ghost a = self.node.node.a; let ghost n0 = t.ht(t.root);
    proof { assert(node_ok(&h0, &t, a)); assert(up_ok(&h0, &t, a)); }
//@loop 0
    invariant self.node.node.a == a, h0 == *old(h), n0 == t.ht(t.root), shape(&h0, &t), t == h0.t@, h.t == h0.t, h.wf(), node.in_tree(&h0), spare.ok(h), spare.leaf is Some, spared(h, &h0, &spare), self.node.nv(&h0).keys.len() == 11,
        h.live(node.node.a), node.nv(h) == node.nv(&h0), node.nv(h).parent != 0 ==> node.nv(h).pidx >= 0, node.height < 0x1_0000_0000, 0 <= node.height <= n0, up_ok(&h0, &t, node.node.a),
        need(&h0, a, n0) == spare.internals@.len() + need(&h0, node.node.a, n0 - node.height),
    ensures node.node.a == t.root,
    decreases n0 - node.height,
//@at /while let/
 proof { assert(h.grown(&h0, spare.leaf->Some_0.p.a, true)); lemma_up(&h0, a);
    assert forall|q: usize| #[trigger] spare.has(q) == (q == spare.leaf->Some_0.p.a) by {} }
//@after /let parent = parent\.into_node\(\);/
 proof { lemma_up(&h0, node.node.a); lemma_up(&h0, parent.node.a); }
//@at /\(match spare/
 let ghost h1 = *h; let ghost s1 = spare;
//@at /node = parent\.forget_type/
 proof { lemma_added(h, &h1, &h0, &spare, &s1); }
//@at /\(match spare[^;]*;[^;]*;[^;]*;\s*Ok\(spare\)\s*\}$/
 let ghost h1 = *h; let ghost s1 = spare;
//@at /Ok\(spare\)\s*\}$/
 proof { lemma_added(h, &h1, &h0, &spare, &s1); }
//@end
}

// ---- insertion ----
proof fn lemma_newroot<K, V>(a: NodeV<K, V>, b: NodeV<K, V>, c: usize, k: K, v: V, w: usize)
    requires a.keys == Seq::<K>::empty(), a.vals == Seq::<V>::empty(), a.edges == seq![c], b == (NodeV { keys: a.keys.push(k), vals: a.vals.push(v), edges: a.edges.push(w), ..a }),
    ensures b.keys == seq![k], b.vals == seq![v], b.edges == seq![c, w], b.edges.len() == 2, b.edges[0] == c, b.edges[1] == w,
{ assert(b.edges =~= seq![c, w]); assert(b.keys =~= seq![k]); assert(b.vals =~= seq![v]); }
impl<K, V> Root<K, V> {
    /// as_mut, for an entry that keeps the root beside it (in the source, inside of it)
    pub fn vx_mut<'b>(&self) -> (r: NodeRef<marker::Mut<'b>, K, V, marker::LeafOrInternal>)
        ensures r.node == self.node.ptr, r.height == self.height,
    { NodeRef { height: self.height, node: self.node.ptr, _marker: PhantomData } }
}
/// into_root_mut of a node that has no parent: it has to be the root
pub fn vx_or_root<'a, K, V, T>(x: Result<Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::Edge>, NodeRef<marker::Mut<'a>, K, V, T>>, root: &Root<K, V>) -> (r: Result<Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::Edge>, ()>)
    requires x is Err ==> x->Err_0.node == root.node.ptr && x->Err_0.height == root.height,
    ensures x is Ok ==> r is Ok && r->Ok_0 == x->Ok_0, x is Err ==> r is Err,
{ match x { Ok(y) => Ok(y), Err(_) => Err(()) } }
/// the root and the number of entries a map has are those of the heap's tree
pub open spec fn map_is<K, V>(root: Root<K, V>, length: usize, h: &Heap<K, V>) -> bool {
    tree(h, &h.t@) && root.node.ptr.a == h.t@.root && root.height == h.t@.ht(h.t@.root) && length == h.t@.s.len()
}
//@type src/btree/map.rs | pub struct VacantEntry<'a, K: 'a, V: 'a> { key: K, handle: Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge>, length: &'a mut usize, _marker: PhantomData<&'a mut (K, V)>, } => pub struct VacantEntry<'a, K, V> { pub key: K, pub handle: Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge>, pub length: &'a mut usize, pub root: &'a mut Root<K, V> }
impl<'a, K, V> VacantEntry<'a, K, V> {
    /// the position its key belongs at
    pub open spec fn i(&self, h: &Heap<K, V>) -> int { h.t@.off(self.handle.node.node.a) + self.handle.idx }
    pub open spec fn ok(&self, h: &Heap<K, V>) -> bool {
        &&& map_is(*self.root, *self.length, h) && self.handle.node.in_tree(h) && self.handle.node.height == 0 && self.handle.node.node.a != SHARED
        &&& self.handle.idx <= self.handle.node.nv(h).keys.len() && gap(h.t@.s, krank(self.key), self.i(h))
    }
//@fn src/btree/map.rs | impl<'a, K: Ord, V> VacantEntry<'a, K, V> | try_insert | C03 C11 C12 C16 C17 C19
//@  heap mut
//@  probe loop
//@  sig /&'a mut V/ => RP<V>
//@  rw /left\.ascend\(\)\.map_err\(\|n\| n\.into_root_mut\(\)\)/ => vx_or_root(left.ascend(), &*self.root)
//@  rw /\broot\s*\.push_level_spare\(&mut spare\)\s*\.push\(/ => let mut vx_top = self.root.push_level_spare(&mut spare); vx_top.push(
//@  rw /&mut \*out_ptr/ => out_ptr
//@  rw /=> return Ok\((.*?)\),\n/ => => { let vx_r = \1; return Ok(vx_r); }\n
    requires self.ok(old(h)), *self.length < usize::MAX,
    ensures r is Err ==> same(final(h), old(h)) && *final(self.length) == *old(self.length) && *final(self.root) == *old(self.root),
        r is Ok ==> {
            &&& map_is(*final(self.root), *final(self.length), final(h)) && kept(old(h), final(h))
            &&& final(h).t@.s == old(h).t@.s.insert(self.i(old(h)), (self.key, value)) && entry_v(r->Ok_0, final(h), self.i(old(h)))
        },
//@body
    let ghost o = *h; let ghost p = self.handle.node.node.a; let ghost i = self.handle.idx as int; let ghost e = self.i(h); let ghost x = (self.key, value); let ghost root0 = *self.root;
    proof { lemma_start(h, p); }
//@after /let mut spare = self\.handle\.try_spare_nodes\(h\)\?;/
 let ghost hs = *h; let ghost s0 = spare; let ghost mut c = p; let ghost mut g = put_t(&snap(h), p, i, x);
 proof { lemma_spared(h, &o, &spare); lemma_start(h, p); assert(h.n(p) == o.n(p)); lemma_sorted(o.t@.s, e, x); if spare.leaf is Some { assert(spare.has(spare.leaf->Some_0.p.a)); } }
//@at /let vx_r = handle/
 proof { assert(h.n(p).ok && h.n(p).leaf); }
//@at /return Ok\(vx_r\); \}\s*\(Split/
 proof { lemma_put_fit(&hs, h, p, i, self.key, value, vx_r); assert(inserted(&o, h, &g, e, x, vx_r)); }
 vx_inserted(Ghost(o), Ghost(g), Ghost(e), Ghost(x), vx_r, h);
//@at /vx_or_root\(/
 proof { lemma_put_split(&o, &hs, h, p, i, self.key, value, k, v, &s0, &spare, ptr); lemma_ready(&o, h, &g, c, k, v, right.node.ptr.a, &spare, &s0, e, x, ptr); }
//@loop 0
    invariant climbing(&o, h, &g, c, ins_k, ins_v, ins_edge.node.ptr.a, &spare, &s0, e, x, out_ptr), ins_edge.height == g.ht(c), sorted(g.s), tree(&o, &o.t@), 0 <= e <= o.t@.s.len(), *self.length == o.t@.s.len() + 1,
        o == *old(h), e == self.i(&o), x == (self.key, value), *self.root == root0, root0 == *old(self.root), root0.node.ptr.a == g.root, root0.height == g.ht(g.root), root0.height < 0x1_0000_0000,
        match cur_parent { Ok(q) => c != g.root && q.node.node.a == h.n(c).parent && q.idx == h.n(c).pidx && q.node.height == g.ht(c) + 1, Err(_) => c == g.root },
    decreases g.ht(g.root) - g.ht(c),
//@at /match cur_parent \{/
 let ghost h1 = *h; let ghost g1 = g; let ghost c1 = c; let ghost s1 = spare; let ghost w1 = ins_edge.node.ptr.a; let ghost k1 = ins_k; let ghost v1 = ins_v;
 proof { lemma_ready(&o, h, &g, c, ins_k, ins_v, w1, &spare, &s0, e, x, out_ptr); }
//@at /return Ok\(vx_r\); \}\s*Split/
 let ghost u = h1.n(c).parent; let ghost j = h1.n(c).pidx;
 proof { lemma_climb_fit(&o, &h1, h, &g1, c1, k1, v1, w1, &s1, &s0, e, x, out_ptr, u, j); g = split_t(&g1, u, j, h1.n(c).keys.len() as int, w1); }
 vx_inserted(Ghost(o), Ghost(g), Ghost(e), Ghost(x), out_ptr, h);
//@at /cur_parent = vx_or_root/
 let ghost u = h1.n(c1).parent; let ghost j = h1.n(c1).pidx;
 proof { lemma_climb(&o, &h1, h, &g1, c1, k1, v1, w1, &s1, &s0, e, x, out_ptr, u, j, &spare, ins_k, ins_v);
    g = split_t(&g1, u, j, h1.n(c1).keys.len() as int, w1); c = u;
    lemma_ready(&o, h, &g, c, ins_k, ins_v, ins_edge.node.ptr.a, &spare, &s0, e, x, out_ptr); }
//@after /let mut vx_top = self.root.push_level_spare\(&mut spare, h\);/
 let ghost h2 = *h;
//@at /return Ok\(unsafe/
 let ghost r = self.root.node.ptr.a;
 proof { lemma_newroot(h2.n(r), h.n(r), c1, k1, v1, w1);
    lemma_climb_top(&o, &h1, h, &g1, c1, k1, v1, w1, &s1, &s0, e, x, out_ptr, r); g = split_t(&grow_t(&g1, r), r, 0, h1.n(c1).keys.len() as int, w1); }
 vx_inserted(Ghost(o), Ghost(g), Ghost(e), Ghost(x), out_ptr, h);
//@end
}
// ---- the map: its entries ----
/// the tree of a map that has no nodes of its own yet is empty
proof fn lemma_unowned<K, V>(h: &Heap<K, V>)
    requires tree(h, &h.t@), h.t@.root == SHARED,
    ensures h.t@.s.len() == 0, h.t@.ht(SHARED) == 0, forall|q: usize| #[trigger] h.t@.fp.contains(q) ==> q == SHARED,
{
    let t = h.t@;
    assert(node_ok(h, &t, SHARED));
    assert forall|q: usize| #[trigger] t.fp.contains(q) implies q == SHARED by {
        assert(node_ok(h, &t, q)); assert(up_ok(h, &t, q)); if q != SHARED { assert(node_ok(h, &t, h.n(q).parent)); assert(t.ht(q) == 0); let u = h.n(q).parent; assert(inner_ok(h, &t, u)); assert(child_at(h, &t, u, h.n(q).pidx, h.n(u).edges[h.n(q).pidx])); }
    }
}
pub open spec fn one_t<K, V>(a: usize) -> PT<K, V> { PT { s: Seq::empty(), ns: Map::empty().insert(a, Nd { kv: Seq::empty(), es: Seq::empty() }), lab: Map::empty().insert(a, Lab { off: 0, end: 0, ht: 0 }), root: a } }
proof fn lemma_one<K, V>(h: &Heap<K, V>, a: usize)
    requires h.wf(), h.fresh(a, true),
    ensures is_tree(h, &one_t::<K, V>(a)), sorted(one_t::<K, V>(a).s),
{
    let g = one_t::<K, V>(a); let n = h.n(a);
    assert(n.keys.len() == 0 && n.vals.len() == 0 && n.edges.len() == 0);
    assert(zip(n) =~= g.kv(a)); assert(n.edges =~= g.es(a));
    assert forall|q: usize| g.in_(q) implies q == a by {}
    assert(nok(&g, a)); assert(up(&g, a)); assert(agn(h, &g, a)); assert(pocc(&g, a));
}
impl<K, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | ensure_root_is_owned | C03 C11 C12 C16
//@  heap mut
//@  rw /node::Root/ => Root
    requires old(self).ok(old(h)),
    ensures r is Err ==> same(final(h), old(h)) && *final(self) == *old(self),
        r is Ok ==> final(self).ok(final(h)) && final(self).root.node.ptr.a != SHARED && kept(old(h), final(h)) && final(h).t@.s == old(h).t@.s && final(self).length == old(self).length,
//@body
    let ghost o = *h;
//@after /self\.root = Root::new_leaf\(h\)\?;/
 let ghost a = self.root.node.ptr.a;
 proof { lemma_unowned(&o); lemma_one(h, a); assert(o.t@.s =~= one_t::<K, V>(a).s); }
 vx_set_tree(Ghost(one_t::<K, V>(a)), h);
 proof { assert forall|q: usize| #[trigger] foreign(h, q) == foreign(&o, q) by {} }
//@end
}
//@type src/btree/map.rs | pub struct OccupiedEntry<'a, K: 'a, V: 'a> { handle: Handle<NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal>, marker::KV>, length: &'a mut usize, _marker: PhantomData<&'a mut (K, V)>, } => pub struct OccupiedEntry<'a, K, V> { pub handle: Handle<NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal>, marker::KV>, pub length: &'a mut usize, pub root: &'a mut Root<K, V> }
//@type src/btree/map.rs | pub enum Entry<'a, K: 'a, V: 'a> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>), } => pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
use Entry::*;
/// what the map gets back at the end is what the entry had
pub open spec fn fin<'a, K, V>(f: &OccupiedEntry<'a, K, V>, o: &OccupiedEntry<'a, K, V>) -> bool { f.length == o.length && f.root == o.root }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    /// the position of the entry
    pub open spec fn i(&self, h: &Heap<K, V>) -> int { kvpos(h, &h.t@, self.handle.node.node.a, self.handle.idx as int) }
    pub open spec fn ok(&self, h: &Heap<K, V>) -> bool {
        &&& map_is(*self.root, *self.length, h) && self.handle.node.in_tree(h) && self.handle.node.own(h) && h.kvok(self.handle.node.node.a) && self.handle.idx < self.handle.node.nv(h).keys.len()
        &&& entry_at(h, self.handle.node.node.a, self.handle.idx as int, self.i(h))
    }
//@fn src/btree/map.rs | impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> | key | C11 C19
//@  heap ref
//@  sig /&K/ => RP<K>
    requires self.ok(h),
    ensures entry_k(r, h, self.i(h)),
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> | get | C11 C19
//@  heap ref
//@  sig /&V/ => RP<V>
    requires self.ok(h),
    ensures entry_v(r, h, self.i(h)),
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> | get_mut | C11 C19
//@  heap ref
//@  sig /&mut V/ => RP<V>
    requires old(self).ok(h),
    ensures entry_v(r, h, old(self).i(h)), r.a() == old(self).handle.node.node.a, r.off() == old(self).handle.idx, final(self).handle == old(self).handle, *final(self).length == *old(self).length, *final(self).root == *old(self).root,
        fin(final(self), old(self)),
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> | into_mut | C11 C19
//@  heap ref
//@  sig /&'a mut V/ => RP<V>
    requires self.ok(h),
    ensures entry_v(r, h, self.i(h)), *final(self.length) == *old(self.length), *final(self.root) == *old(self.root),
//@end
//@fn src/btree/map.rs | impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> | insert | C11 C12 C15 C19
//@  heap mut
//@  rw /mem::replace\(self\.get_mut\(\), value\)/ => let vx_p = self.get_mut(h); let vx_r = vx_replace(vx_p, value, &mut h.vs); vx_r
    requires old(self).ok(old(h)),
    ensures final(self).ok(final(h)), r == old(h).t@.s[old(self).i(old(h))].1, final(h).t@.s == old(h).t@.s.update(old(self).i(old(h)), (old(h).t@.s[old(self).i(old(h))].0, value)),
        final(self).i(final(h)) == old(self).i(old(h)), kept(old(h), final(h)), final(self).handle == old(self).handle, *final(self).length == *old(self).length, *final(self).root == *old(self).root, fin(final(self), old(self)),
//@body
    let ghost o = *h; let ghost p = self.handle.node.node.a; let ghost j = self.handle.idx as int;
//@at /vx_r\s*\}$/
 let ghost k = o.n(p).keys[j]; let ghost g = set_t(&snap(&o), p, j, (k, value));
 proof {
    assert(h.n(p) =~~= NodeV { keys: o.n(p).keys.update(j, k), vals: o.n(p).vals.update(j, value), ..o.n(p) });
    assert forall|q: usize| q != p implies #[trigger] h.n(q) == o.n(q) by {}
    lemma_set(&o, h, p, j, k, value);
 }
 vx_set_tree(Ghost(g), h);
 proof { lemma_kvpos(h, p, j); assert(kvpos(h, &h.t@, p, j) == kvpos(&o, &o.t@, p, j)) by { assert(node_ok(&o, &o.t@, p)); if o.t@.ht(p) > 0 { lemma_child(&o, &o.t@, p, j); } } assert(o.n(p).vals[j] == o.t@.s[self.i(&o)].1); }
//@end
}
/// Borrow of a key as itself
#[verifier::external_body]
proof fn ax_self<K>(k: &K) ensures qrank(k) == krank(*k) { }
impl<K: Ord, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | try_entry | C03 C11 C12 C16 C19
//@  heap mut
//@  rw /\bsearch::/ => 
//@  rw /self\.root\.as_mut\(\)/ => self.root.vx_mut()
//@  rw /length: &mut self\.length,\s*_marker: PhantomData,/ => length: &mut self.length, root: &mut self.root,
    requires old(self).ok(old(h)),
    ensures r is Err ==> same(final(h), old(h)) && *final(self) == *old(self),
        r is Ok ==> kept(old(h), final(h)) && final(h).t@.s == old(h).t@.s && match r->Ok_0 {
            Occupied(e) => e.ok(final(h)) && krank(final(h).t@.s[e.i(final(h))].0) == krank(key) && final(self).length == *final(e.length) && final(self).root == *final(e.root) && *e.length == old(self).length,
            Vacant(e) => e.ok(final(h)) && e.key == key && final(self).length == *final(e.length) && final(self).root == *final(e.root) && *e.length == old(self).length,
        },
//@at /Ok\(match/
 proof { ax_self(&key); assert(node_ok(h, &h.t@, h.t@.root)); assert forall|q: usize| #[trigger] h.t@.fp.contains(q) implies q != SHARED by { assert(up_ok(h, &h.t@, q)); } }
//@end
//@fn src/btree/map.rs | impl<K: Ord, V> BTreeMap<K, V> | try_insert | C03 C11 C12 C15 C16 C17 C19
//@  heap mut
//@  rw /match self\.try_entry\(key\)\? \{/ => let vx_e = match self.try_entry(key) { Ok(x) => x, Err(e) => { return Err(e); } }; match vx_e {
//@  rw /Ok\(Some\(entry\.insert\(value\)\)\)/ => { let vx_r = entry.insert(value); Ok(Some(vx_r)) }
//@  rw /entry\.try_insert\(value\)\?;/ => match entry.try_insert(value) { Ok(_) => { }, Err(e) => { return Err(e); } }
    requires old(self).ok(old(h)), old(self).length < usize::MAX,
    ensures final(self).ok(final(h)), kept(old(h), final(h)),
        match r {
            Err(_) => final(h).t@.s == old(h).t@.s,
            Ok(None) => exists|i: int| #[trigger] gap(old(h).t@.s, krank(key), i) && final(h).t@.s == old(h).t@.s.insert(i, (key, value)),
            Ok(Some(x)) => exists|i: int| 0 <= i < old(h).t@.s.len() && krank((#[trigger] old(h).t@.s[i]).0) == krank(key) && x == old(h).t@.s[i].1 && final(h).t@.s == old(h).t@.s.update(i, (old(h).t@.s[i].0, value)),
        },
//@body
    let ghost o = *h;
//@at /return Err\(e\); \} \}; match/
 proof { lemma_same(h, &o); }
//@at /match vx_e/
 let ghost h1 = *h;
//@at /Ok\(Some\(vx_r\)\)/
 proof { lemma_kept(&o, &h1, h); }
//@after /match entry\.try_insert\(value, h\) \{ Ok\(_\) => \{/
 proof { lemma_kept(&o, &h1, h); }
//@at /return Err\(e\); \} \}\s*Ok/
 proof { lemma_same(h, &h1); lemma_kept(&o, &h1, h); }
//@end
}
}
fn main() {}
