// The nodes of the B-tree: every function of src/btree/node.rs that touches node memory.
use vstd::prelude::*;
verus! {
//@include node_model.rsi
//@threads into_slices into_key_slice into_val_slice into_key_slice_mut into_val_slice_mut into_kv deallocate_and_ascend cast_unchecked_h into_slices_mut merge can_merge steal_left steal_right bulk_steal_left bulk_steal_right remove move_suffix push_level push_level_into push_level_spare pop_level deallocate_and_ascend insert add_internal new_leaf keys_mut vals_mut keys vals len first_edge last_edge first_kv last_kv new_kv new_edge left_edge right_edge left_kv right_kv ascend descend correct_parent_link correct_childrens_parent_links correct_all_childrens_parent_links move_kv move_edges insert_fit split pop pop_front push push_front into_kv_pointers_mut into_kv_mut
/// s with x put in before slot i and the slots up to n moved one up
pub open spec fn ins<T>(s: Seq<Option<T>>, i: int, n: int, x: T) -> Seq<Option<T>> {
    Seq::new(s.len(), |j: int| if j < i { s[j] } else if j == i { Some(x) } else if j <= n { s[j - 1] } else { s[j] })
}
/// s without slot i, the slots up to n moved one down
pub open spec fn del<T>(s: Seq<Option<T>>, i: int, n: int) -> Seq<Option<T>> {
    Seq::new(s.len(), |j: int| if i <= j < n - 1 { s[j + 1] } else { s[j] })
}
//@fn src/btree/node.rs |  | slice_insert | C11 C12 C15 C16 C19
//@  heap mem
//@  sig /slice: &mut \[T\]/ => slice: RS<T>
    requires idx <= slice.n(), slice.n() <= 11, can(old(m)@, slice.a(), slice.off(), slice.n() as int + 1), slice.off() == 0,
    ensures final(m)@.dom() == old(m)@.dom(), final(m)@ == old(m)@.insert(slice.a(), ins(old(m)@[slice.a()], idx as int, slice.n() as int, val)),
//@after /vx_write.*?;/
    proof { assert(m@[slice.a()] =~= ins(old(m)@[slice.a()], idx as int, slice.n() as int, val));
        assert(m@ =~= old(m)@.insert(slice.a(), ins(old(m)@[slice.a()], idx as int, slice.n() as int, val))); }
//@end
//@fn src/btree/node.rs |  | slice_remove | C11 C12 C15
//@  heap mem
//@  sig /slice: &mut \[T\]/ => slice: RS<T>
    requires idx < slice.n(), slice.n() <= 12, can(old(m)@, slice.a(), slice.off(), slice.n() as int), slice.off() == 0, old(m)@[slice.a()][slice.off() + idx] is Some,
    ensures Some(r) == old(m)@[slice.a()][slice.off() + idx], final(m)@.dom() == old(m)@.dom(),
        final(m)@ == old(m)@.insert(slice.a(), del(old(m)@[slice.a()], idx as int, slice.n() as int)),
//@after /vx_copy.*?;/
    proof { assert(m@[slice.a()] =~= del(old(m)@[slice.a()], idx as int, slice.n() as int));
        assert(m@ =~= old(m)@.insert(slice.a(), del(old(m)@[slice.a()], idx as int, slice.n() as int))); }
//@end

impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> {
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | len | C11 C12 C13
//@  heap ref
//@  rw /self\.as_header\(\)\.len/ => h.hd.len(self.as_header())
    requires h.live(self.node.a),
    ensures r == self.nv(h).keys.len(),
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | height | C11
    ensures r == self.height,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | forget_type | C11 C13
    ensures r.is(&self),
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | reborrow | C11 C13
    ensures r.is(self),
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | is_shared_root | C11 C12
    ensures r == (self.node.a == SHARED),
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | keys | C11 C12 C14
//@  heap ref
//@  sig /&\[K\]/ => RS<K>
    requires h.live(self.node.a),
    ensures r.a() == self.node.a, r.off() == 0, r.n() == self.nv(h).keys.len(),
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | vals | C11 C12
//@  heap ref
//@  sig /&\[V\]/ => RS<V>
    requires h.dom().contains(self.node.a), self.node.a != SHARED,
    ensures r.a() == self.node.a, r.off() == 0, r.n() == self.nv(h).vals.len(),
//@end
    #[verifier::external_body]
    pub fn vx_edges(&self) -> (r: RS<BoxedNode<K, V>>)
        ensures r.a() == self.node.a, r.off() == 0, r.n() == 12,
    { unimplemented!() }
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | as_leaf | C11 C12
//@  sig /-> &LeafNode<K, V>/ => -> P
    requires self.node.a != SHARED,
    ensures r == self.node,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | as_header | C11 C12
//@  sig /-> &NodeHeader<K, V>/ => -> P
//@  rw /&\*\(self\.node\.as_ptr\(\) as \*const NodeHeader<K, V>\)/ => self.node.as_ptr()
    ensures r == self.node,
//@end
//@fn src/btree/node.rs | impl<'a, K, V, Type> NodeRef<marker::Mut<'a>, K, V, Type> | as_leaf_mut | C11 C12
//@  sig /&mut self\) -> \*mut LeafNode<K, V>/ => &self) -> P
    ensures r == self.node,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V> NodeRef<BorrowType, K, V, marker::Internal> | as_internal | C11 C12
//@  sig /-> &InternalNode<K, V>/ => -> P
//@  rw /&\*\(self\.node\.as_ptr\(\) as \*mut InternalNode<K, V>\)/ => self.node.as_ptr()
    ensures r == self.node,
//@end
//@fn src/btree/node.rs | impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::Internal> | as_internal_mut | C11 C12
//@  sig /&mut self\) -> &mut InternalNode<K, V>/ => &self) -> P
//@  rw /&mut \*\(self\.node\.as_ptr\(\) as \*mut InternalNode<K, V>\)/ => self.node.as_ptr()
    ensures r == self.node,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | ascend | C11 C12 C13 C17
//@  heap ref
//@  rw /let parent_as_leaf = self\.as_header\(\)\.parent as \*const LeafNode<K, V>/ => let parent_as_leaf = h.hd.parent(self.as_header())
//@  rw /NonNull::new\(parent_as_leaf as \*mut _\)/ => vx_non_null(parent_as_leaf)
//@  rw /\*self\.as_header\(\)\.parent_idx\.as_ptr\(\)/ => h.hd.parent_idx(self.as_header())
//@  rw /usize::from\(/ => vx_from_u16(
    requires h.wf(), h.live(self.node.a), self.nv(h).parent != 0 ==> self.nv(h).pidx >= 0, self.height < usize::MAX,
    ensures
        self.nv(h).parent == 0 ==> r is Err && r->Err_0 == self,
        self.nv(h).parent != 0 ==> r is Ok && r->Ok_0.node.node.a == self.nv(h).parent && r->Ok_0.idx == self.nv(h).pidx && r->Ok_0.node.height == self.height + 1,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | first_edge | C11 C13
//@  heap ref
    requires h.live(self.node.a),
    ensures r.node == self, r.idx == 0,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | last_edge | C11 C13
//@  heap ref
    requires h.live(self.node.a),
    ensures r.node == self, r.idx == self.nv(h).keys.len(),
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | first_kv | C11 C13
//@  heap ref
    requires h.live(self.node.a), self.nv(h).keys.len() > 0,
    ensures r.node == self, r.idx == 0,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, Type> NodeRef<BorrowType, K, V, Type> | last_kv | C11 C13
//@  heap ref
    requires h.live(self.node.a), self.nv(h).keys.len() > 0,
    ensures r.node == self, r.idx == self.nv(h).keys.len() - 1,
//@end
}
impl P {
//@fn src/btree/node.rs | impl<K, V> NodeHeader<K, V> | is_shared_root | C11 C12
//@  sig /&self/ => self
//@  rw /ptr::eq\(self, &EMPTY_ROOT_NODE as \*const _ as \*const _\)/ => self.a == SHARED
    ensures r == (self.a == SHARED),
//@end
}
impl<K, V> BoxedNode<K, V> {
//@fn src/btree/node.rs | impl<K, V> BoxedNode<K, V> | as_ptr | C11 C12
//@  sig /NonNull<LeafNode<K, V>>/ => P
//@  rw /NonNull::from\(self\.ptr\)/ => self.ptr
    ensures r == self.ptr,
//@end
}
pub fn vx_non_null(p: P) -> (r: Option<P>) ensures p.a == 0 ==> r is None, p.a != 0 ==> r == Some(p) { if p.a == 0 { None } else { Some(p) } }
pub fn vx_from_u16(n: u16) -> (r: usize) ensures r == n { n as usize }

impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, marker::KV> {
//@fn src/btree/node.rs | impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, marker::KV> | new_kv | C11 C13
//@  heap ref
    requires h.live(node.node.a), idx < node.nv(h).keys.len(),
    ensures r.node == node, r.idx == idx,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, marker::KV> | left_edge | C11 C13
//@  heap ref
    requires h.live(self.node.node.a), self.idx <= self.node.nv(h).keys.len(),
    ensures r.node == self.node, r.idx == self.idx,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, marker::KV> | right_edge | C11 C13
//@  heap ref
    requires h.live(self.node.node.a), self.idx < self.node.nv(h).keys.len(),
    ensures r.node == self.node, r.idx == self.idx + 1,
//@end
}
impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, marker::Edge> {
//@fn src/btree/node.rs | impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, marker::Edge> | new_edge | C11 C13
//@  heap ref
    requires h.live(node.node.a), idx <= node.nv(h).keys.len(),
    ensures r.node == node, r.idx == idx,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, marker::Edge> | left_kv | C11 C13
//@  heap ref
    requires h.live(self.node.node.a), self.idx <= self.node.nv(h).keys.len(),
    ensures self.idx > 0 ==> r is Ok && r->Ok_0.node == self.node && r->Ok_0.idx == self.idx - 1,
        self.idx == 0 ==> r is Err && r->Err_0 == self,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, marker::Edge> | right_kv | C11 C13
//@  heap ref
    requires h.live(self.node.node.a), self.idx <= self.node.nv(h).keys.len(),
    ensures self.idx < self.node.nv(h).keys.len() ==> r is Ok && r->Ok_0.node == self.node && r->Ok_0.idx == self.idx,
        self.idx == self.node.nv(h).keys.len() ==> r is Err && r->Err_0 == self,
//@end
}
impl<'a, K, V, Type> NodeRef<marker::Mut<'a>, K, V, Type> {
//@fn src/btree/node.rs | impl<'a, K, V, Type> NodeRef<marker::Mut<'a>, K, V, Type> | cast_unchecked | C11 C12 C15 C16
    ensures r.is(old(self)), *final(self) == *old(self),
//@end
//@fn src/btree/node.rs | impl<'a, K, V, Type> NodeRef<marker::Mut<'a>, K, V, Type> | reborrow_mut | C11 C12 C15 C16
    ensures r.is(old(self)), *final(self) == *old(self),
//@end
//@fn src/btree/node.rs | impl<'a, K, V, Type> NodeRef<marker::Mut<'a>, K, V, Type> | keys_mut | C11 C12 C15 C16
//@  heap ref
//@  sig /&mut \[K\]/ => RS<K>
    requires h.live(old(self).node.a),
    ensures r.a() == old(self).node.a, r.off() == 0, r.n() == old(self).nv(h).keys.len(), *final(self) == *old(self),
//@end
//@fn src/btree/node.rs | impl<'a, K, V, Type> NodeRef<marker::Mut<'a>, K, V, Type> | vals_mut | C11 C12 C15 C16
//@  heap ref
//@  sig /&mut \[V\]/ => RS<V>
    requires h.dom().contains(old(self).node.a), old(self).node.a != SHARED,
    ensures r.a() == old(self).node.a, r.off() == 0, r.n() == old(self).nv(h).vals.len(), *final(self) == *old(self),
//@end
//@fn src/btree/node.rs | impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Mut<'a>, K, V, Type> | into_key_slice_mut | C11 C12 C15 C16
//@  heap ref
//@  sig /&'a mut \[K\]/ => RS<K>
//@  rw /mem::align_of::<K>\(\) > mem::align_of::<LeafNode<\(\), \(\)>>\(\)/ => vx_coarse::<K>()
//@  rw /&mut \[\]/ => vx_none_of(Ghost(self.node.a))
//@  rw /MaybeUninit::slice_as_mut_ptr\(&mut \(\*self\.as_leaf_mut\(\)\)\.keys\)/ => vx_keys_ptr(self.as_leaf_mut())
    requires h.live(self.node.a),
    ensures r.a() == self.node.a, r.off() == 0, r.n() == self.nv(h).keys.len(),
//@end
//@fn src/btree/node.rs | impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Mut<'a>, K, V, Type> | into_val_slice_mut | C11 C12 C15 C16
//@  heap ref
//@  sig /&'a mut \[V\]/ => RS<V>
//@  rw /MaybeUninit::slice_as_mut_ptr\(&mut \(\*self\.as_leaf_mut\(\)\)\.vals\)/ => vx_vals_ptr(self.as_leaf_mut())
    requires h.dom().contains(self.node.a), self.node.a != SHARED,
    ensures r.a() == self.node.a, r.off() == 0, r.n() == self.nv(h).vals.len(),
//@end
//@fn src/btree/node.rs | impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Mut<'a>, K, V, Type> | into_slices_mut | C11 C12 C15 C16
//@  heap ref
//@  sig /\(&'a mut \[K\], &'a mut \[V\]\)/ => (RS<K>, RS<V>)
//@  rw /MaybeUninit::slice_as_mut_ptr\(&mut \(\*leaf\)\.(keys|vals)\)/ => vx_\1_ptr(leaf)
    requires h.dom().contains(self.node.a), self.node.a != SHARED,
    ensures r.0.a() == self.node.a, r.0.off() == 0, r.0.n() == self.nv(h).keys.len(), r.1.a() == self.node.a, r.1.off() == 0, r.1.n() == self.nv(h).vals.len(),
//@end
}
/// is the type so strictly aligned that the shared root is too small for a key's address?
#[verifier::external_body]
pub fn vx_coarse<K>() -> (r: bool) ensures r == coarse::<K>() { unimplemented!() }
pub uninterp spec fn coarse<K>() -> bool;
/// is a node header aligned for the keys as large as one that is not? Certain only of keys that are not aligned more strictly.
#[verifier::external_body]
pub fn vx_same_header<K, V>() -> (r: bool) ensures !coarse::<K>() ==> r { unimplemented!() }
/// an assertion that remains in the compiled code
pub fn vx_must(b: bool) requires b {}
/// a slice of no elements; nobody can tell where it is
#[verifier::external_body]
pub fn vx_none_of<T>(a: Ghost<usize>) -> (r: RS<T>) ensures r.a() == a@, r.off() == 0, r.n() == 0 { unimplemented!() }
/// where the arrays of a node begin
#[verifier::external_body]
pub fn vx_keys_ptr<K>(p: P) -> (r: RP<K>) ensures r.a() == p.a, r.off() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_vals_ptr<V>(p: P) -> (r: RP<V>) ensures r.a() == p.a, r.off() == 0 { unimplemented!() }
impl<'a, K, V, Type> NodeRef<marker::Immut<'a>, K, V, Type> {
//@fn src/btree/node.rs | impl<'a, K: 'a, V: 'a, Type> Clone for NodeRef<marker::Immut<'a>, K, V, Type> | clone | C11 C13 C14
//@  as vx_clone
    ensures r == *self,
//@end
//@fn src/btree/node.rs | impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Immut<'a>, K, V, Type> | into_key_slice | C11 C13 C14
//@  heap ref
//@  sig /&'a \[K\]/ => RS<K>
//@  rw /mem::align_of::<K>\(\) > mem::align_of::<LeafNode<\(\), \(\)>>\(\)/ => vx_coarse::<K>()
//@  rw /&\[\]/ => vx_none_of(Ghost(self.node.a))
//@  rw /mem::size_of::<NodeHeader<K, V>>\(\) == mem::size_of::<NodeHeader<K, V, K>>\(\)/ => vx_same_header::<K, V>()
//@  rw /assert!\((.*?)\);/ => vx_must(\1);
//@  rw /MaybeUninit::slice_as_ptr\(&self\.as_leaf\(\)\.keys\)/ => vx_keys_ptr(self.as_leaf())
//@  rw /let header = self\.as_header\(\) as \*const _ as \*const NodeHeader<K, V, K>;\s*let keys = unsafe \{ &\(\*header\)\.keys_start as \*const _ as \*const K \};/ => let keys = vx_keys_ptr(self.as_header());
    requires h.live(self.node.a),
    ensures r.a() == self.node.a, r.off() == 0, r.n() == self.nv(h).keys.len(),
//@end
//@fn src/btree/node.rs | impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Immut<'a>, K, V, Type> | into_val_slice | C11 C13 C14
//@  heap ref
//@  sig /&'a \[V\]/ => RS<V>
//@  rw /MaybeUninit::slice_as_ptr\(&self\.as_leaf\(\)\.vals\)/ => vx_vals_ptr(self.as_leaf())
    requires h.dom().contains(self.node.a), self.node.a != SHARED,
    ensures r.a() == self.node.a, r.off() == 0, r.n() == self.nv(h).vals.len(),
//@end
//@fn src/btree/node.rs | impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Immut<'a>, K, V, Type> | into_slices | C11 C13 C14
//@  heap ref
//@  sig /\(&'a \[K\], &'a \[V\]\)/ => (RS<K>, RS<V>)
    requires h.dom().contains(self.node.a), self.node.a != SHARED,
    ensures r.0.a() == self.node.a, r.0.off() == 0, r.0.n() == self.nv(h).keys.len(), r.1.a() == self.node.a, r.1.off() == 0, r.1.n() == self.nv(h).vals.len(),
//@end
}
impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::Leaf> {
//@fn src/btree/node.rs | impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::Leaf> | push | C11 C12 C15 C16
//@  heap mut
    requires old(self).own(old(h)), old(self).nv(old(h)).keys.len() < 11, old(self).height == 0,
    ensures *final(self) == *old(self),
        final(h).upd(old(h), old(self).node.a, NodeV { keys: old(self).nv(old(h)).keys.push(key), vals: old(self).nv(old(h)).vals.push(val), ..old(self).nv(old(h)) }),
//@after /h\.hd\.set_len\(vx_n, vx_l\); \}/
    proof { assert(h.n(self.node.a) =~~= NodeV { keys: old(self).nv(old(h)).keys.push(key), vals: old(self).nv(old(h)).vals.push(val), ..old(self).nv(old(h)) }); }
//@end
//@fn src/btree/node.rs | impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::Leaf> | push_front | C11 C12 C15 C16
//@  heap mut
    requires old(self).own(old(h)), old(self).nv(old(h)).keys.len() < 11, old(self).height == 0,
    ensures *final(self) == *old(self),
        final(h).upd(old(h), old(self).node.a, NodeV { keys: old(self).nv(old(h)).keys.insert(0, key), vals: old(self).nv(old(h)).vals.insert(0, val), ..old(self).nv(old(h)) }),
//@after /h\.hd\.set_len\(vx_n, vx_l\); \}/
    proof { assert(h.n(self.node.a) =~~= NodeV { keys: old(self).nv(old(h)).keys.insert(0, key), vals: old(self).nv(old(h)).vals.insert(0, val), ..old(self).nv(old(h)) }); }
//@end
}
impl<BorrowType, K, V> Handle<NodeRef<BorrowType, K, V, marker::Internal>, marker::Edge> {
//@fn src/btree/node.rs | impl<BorrowType, K, V> Handle<NodeRef<BorrowType, K, V, marker::Internal>, marker::Edge> | descend | C11 C12 C13 C15
//@  heap ref
//@  rw /unsafe \{\s*\(&\*self\s*\.node\s*\.as_internal\(\)\s*\.edges\s*\.get_unchecked\(self\.idx\)\s*\.as_ptr\(\)\)\s*\.as_ptr\(\)\s*\}/ => h.es.peek(self.node.vx_edges().get_unchecked(self.idx)).as_ptr()
    requires self.node.kind(h), self.node.height > 0, self.idx <= self.node.nv(h).keys.len(), self.idx < 12, h.es@[self.node.node.a][self.idx as int] is Some,
    ensures r.node.a == self.node.nv(h).edges[self.idx as int], r.height == self.node.height - 1,
//@end
}
impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::Edge> {
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::Edge> | correct_parent_link | C11 C12 C15 C16
//@  heap mut
//@  rw /self\.node\.as_internal_mut\(\) as \*mut _/ => self.node.as_internal_mut()
    requires self.node.kind(old(h)), self.node.height > 0, self.idx <= self.node.nv(old(h)).keys.len(), self.idx < 12, old(h).es@[self.node.node.a][self.idx as int] is Some,
        old(h).dom().contains(self.node.nv(old(h)).edges[self.idx as int]),
    ensures final(h).es@ == old(h).es@, final(h).ks@ == old(h).ks@, final(h).vs@ == old(h).vs@, forall|q: usize| q != self.node.nv(old(h)).edges[self.idx as int] ==> #[trigger] final(h).hd@[q] == old(h).hd@[q],
        final(h).hd@[self.node.nv(old(h)).edges[self.idx as int]].len == old(h).hd@[self.node.nv(old(h)).edges[self.idx as int]].len,
        final(h).upd(old(h), self.node.nv(old(h)).edges[self.idx as int], NodeV { parent: self.node.node.a, pidx: self.idx as int, ..old(h).n(self.node.nv(old(h)).edges[self.idx as int]) }),
//@at /\}\s*\}$/
    proof { assert(h.n(child.node.a) =~~= NodeV { parent: self.node.node.a, pidx: self.idx as int, ..old(h).n(child.node.a) }); }
//@end
}
impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::Internal> {
//@fn src/btree/node.rs | impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::Internal> | correct_childrens_parent_links | C11 C12 C15 C16
//@  heap mut
//@  rw /Handle::new_edge\(unsafe \{ self\.reborrow_mut\(\) \}, i\)/ => Handle::new_edge(self.reborrow_mut(), i)
    requires old(self).kind(old(h)), old(self).height > 0, first <= after_last <= old(self).nv(old(h)).keys.len() + 1 <= 12,
        distinct(old(self).nv(old(h)).edges, first as int, after_last as int),
        forall|i: int| first <= i < after_last ==> (#[trigger] old(h).es@[old(self).node.a][i]) is Some,
        forall|i: int| first <= i < after_last ==> #[trigger] old(self).nv(old(h)).edges[i] != old(self).node.a && old(h).dom().contains(old(self).nv(old(h)).edges[i]),
    ensures *final(self) == *old(self), final(h).es@ == old(h).es@, final(h).ks@ == old(h).ks@, final(h).vs@ == old(h).vs@, forall|q: usize| !within(old(self).nv(old(h)).edges, first as int, after_last as int, q) ==> #[trigger] final(h).hd@[q] == old(h).hd@[q],
        forall|q: usize| (#[trigger] final(h).hd@[q]).len == old(h).hd@[q].len,
        final(h).relink(old(h), old(self).node.a, old(self).nv(old(h)).edges, first as int, after_last as int),
        final(h).n(old(self).node.a) == old(h).n(old(self).node.a),
//@loop 0
    invariant
        *self == *old(self), self.kind(h), self.height > 0, first <= after_last <= old(self).nv(old(h)).keys.len() + 1 <= 12,
        distinct(old(self).nv(old(h)).edges, first as int, after_last as int),
        forall|i: int| first <= i < after_last ==> (#[trigger] old(h).es@[old(self).node.a][i]) is Some,
        h.es@ == old(h).es@, h.ks@ == old(h).ks@, h.vs@ == old(h).vs@, forall|q: usize| (#[trigger] h.hd@[q]).len == old(h).hd@[q].len, forall|q: usize| !within(old(self).nv(old(h)).edges, first as int, i as int, q) ==> #[trigger] h.hd@[q] == old(h).hd@[q],
        forall|i: int| first <= i < after_last ==> #[trigger] old(self).nv(old(h)).edges[i] != old(self).node.a && old(h).dom().contains(old(self).nv(old(h)).edges[i]),
        h.relink(old(h), old(self).node.a, old(self).nv(old(h)).edges, first as int, i as int),
        h.n(old(self).node.a) == old(h).n(old(self).node.a),
//@end
}
impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::Internal> {
//@fn src/btree/node.rs | impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::Internal> | push | C11 C12 C15 C16
//@  heap mut
//@  rw /self\.as_internal_mut\(\)\s*\.edges\s*\.as_mut_ptr\(\)\s*\.add\(idx \+ 1\)\s*\.as_mut\(\)\s*\.unwrap\(\)\s*\.write\(edge\.node\)/ => ptr::write(self.as_internal_mut().edges.as_mut_ptr().add(idx + 1), edge.node)
    requires old(self).own(old(h)), old(self).height > 0, old(self).nv(old(h)).keys.len() < 11, edge.height == old(self).height - 1,
        old(h).dom().contains(edge.node.ptr.a), edge.node.ptr.a != old(self).node.a,
    ensures *final(self) == *old(self), final(h).wf(), final(h).dom() == old(h).dom(),
        final(h).n(old(self).node.a) == (NodeV { keys: old(self).nv(old(h)).keys.push(key), vals: old(self).nv(old(h)).vals.push(val), edges: old(self).nv(old(h)).edges.push(edge.node.ptr.a), ..old(self).nv(old(h)) }),
        final(h).n(edge.node.ptr.a) == (NodeV { parent: old(self).node.a, pidx: old(self).nv(old(h)).keys.len() as int + 1, ..old(h).n(edge.node.ptr.a) }),
        forall|q: usize| q != old(self).node.a && q != edge.node.ptr.a ==> #[trigger] final(h).n(q) == old(h).n(q),
        old(h).linked(old(self).node.a) && old(h).n(edge.node.ptr.a).parent != old(self).node.a ==> final(h).linked(old(self).node.a),
//@after /h\.hd\.set_len\(vx_n, vx_l\); \}/
    proof { assert(h.n(self.node.a) =~~= NodeV { keys: old(self).nv(old(h)).keys.push(key), vals: old(self).nv(old(h)).vals.push(val), edges: old(self).nv(old(h)).edges.push(edge.node.ptr.a), ..old(self).nv(old(h)) }); }
//@end
//@fn src/btree/node.rs | impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::Internal> | correct_all_childrens_parent_links | C11 C12 C15 C16
//@  heap mut
    requires old(self).inner(old(h)),
        distinct(old(self).nv(old(h)).edges, 0, old(self).nv(old(h)).edges.len() as int),
        forall|i: int| 0 <= i < old(self).nv(old(h)).edges.len() ==> #[trigger] old(self).nv(old(h)).edges[i] != old(self).node.a && old(h).dom().contains(old(self).nv(old(h)).edges[i]),
    ensures *final(self) == *old(self),
        final(h).relink(old(h), old(self).node.a, old(self).nv(old(h)).edges, 0, old(self).nv(old(h)).edges.len() as int),
        final(h).n(old(self).node.a) == old(h).n(old(self).node.a),
//@end
//@fn src/btree/node.rs | impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::Internal> | push_front | C11 C12 C15 C16
//@  heap mut
    requires old(self).own(old(h)), old(self).height > 0, old(self).nv(old(h)).keys.len() < 11, edge.height == old(self).height - 1,
        old(h).dom().contains(edge.node.ptr.a), edge.node.ptr.a != old(self).node.a, old(h).linked(old(self).node.a), old(h).n(edge.node.ptr.a).parent != old(self).node.a,
    ensures *final(self) == *old(self), final(h).dom() == old(h).dom(),
        final(h).n(old(self).node.a) == (NodeV { keys: old(self).nv(old(h)).keys.insert(0, key), vals: old(self).nv(old(h)).vals.insert(0, val), edges: old(self).nv(old(h)).edges.insert(0, edge.node.ptr.a), ..old(self).nv(old(h)) }),
        final(h).linked(old(self).node.a),
        final(h).besides(old(h), set![old(self).node.a], edge.node.ptr.a),
        final(h).n(edge.node.ptr.a) == (NodeV { parent: old(self).node.a, pidx: 0, ..old(h).n(edge.node.ptr.a) }),
//@at /\}\s*\}$/
    proof { assert(h.n(self.node.a).edges[0] == edge.node.ptr.a); }
//@after /h\.hd\.set_len\(vx_n, vx_l\); \}/
    proof { assert(h.n(self.node.a) =~~= NodeV { keys: old(self).nv(old(h)).keys.insert(0, key), vals: old(self).nv(old(h)).vals.insert(0, val), edges: old(self).nv(old(h)).edges.insert(0, edge.node.ptr.a), ..old(self).nv(old(h)) }); }
//@end
}
impl<BorrowType, K, V> NodeRef<BorrowType, K, V, marker::LeafOrInternal> {
//@fn src/btree/node.rs | impl<BorrowType, K, V> NodeRef<BorrowType, K, V, marker::LeafOrInternal> | force | C11 C12 C13 C15 C17
    ensures self.height == 0 ==> r is Leaf && r->Leaf_0.is(&self),
        self.height != 0 ==> r is Internal && r->Internal_0.is(&self),
//@end
}
impl<BorrowType, K, V, HandleType> Handle<NodeRef<BorrowType, K, V, marker::LeafOrInternal>, HandleType> {
//@fn src/btree/node.rs | impl<BorrowType, K, V, HandleType> Handle<NodeRef<BorrowType, K, V, marker::LeafOrInternal>, HandleType> | force | C11 C12 C13 C15
    ensures self.node.height == 0 ==> r is Leaf && r->Leaf_0.node.is(&self.node) && r->Leaf_0.idx == self.idx,
        self.node.height != 0 ==> r is Internal && r->Internal_0.node.is(&self.node) && r->Internal_0.idx == self.idx,
//@end
}
impl<K, V> Root<K, V> {
//@fn src/btree/node.rs | impl<K, V> Root<K, V> | as_ref | C11 C13
    ensures r.node == self.node.ptr, r.height == self.height,
//@end
//@fn src/btree/node.rs | impl<K, V> Root<K, V> | as_mut | C11 C12
    ensures r.node == old(self).node.ptr, r.height == old(self).height, *final(self) == *old(self),
//@end
//@fn src/btree/node.rs | impl<K, V> Root<K, V> | into_ref | C13 C17
    ensures r.node == self.node.ptr, r.height == self.height,
//@end
//@fn src/btree/node.rs | impl<K, V> Root<K, V> | is_shared_root | C11 C12
    ensures r == (self.node.ptr.a == SHARED),
//@end
}
impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal> {
//@fn src/btree/node.rs | impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal> | pop | C11 C12 C15 C16
//@  heap mut
//@  rw /internal\.as_internal\(\)\.edges\.get_unchecked\(idx \+ 1\)\.as_ptr\(\)/ => internal.as_internal().edges.get_unchecked(idx + 1)
    requires old(self).own(old(h)), old(self).nv(old(h)).keys.len() > 0, old(self).height > 0 ==> old(h).linked(old(self).node.a),
    ensures *final(self) == *old(self), final(h).wf(), final(h).dom() == old(h).dom(),
        r.0 == old(self).nv(old(h)).keys.last(), r.1 == old(self).nv(old(h)).vals.last(),
        old(self).height == 0 ==> r.2 is None && final(h).upd(old(h), old(self).node.a, NodeV { keys: old(self).nv(old(h)).keys.drop_last(), vals: old(self).nv(old(h)).vals.drop_last(), ..old(self).nv(old(h)) }),
        old(self).height > 0 ==> {
            &&& r.2 is Some && r.2->Some_0.node.ptr.a == old(self).nv(old(h)).edges.last() && r.2->Some_0.height == old(self).height - 1
            &&& final(h).n(old(self).node.a) == NodeV { keys: old(self).nv(old(h)).keys.drop_last(), vals: old(self).nv(old(h)).vals.drop_last(), edges: old(self).nv(old(h)).edges.drop_last(), ..old(self).nv(old(h)) }
            &&& final(h).n(old(self).nv(old(h)).edges.last()) == NodeV { parent: 0, ..old(h).n(old(self).nv(old(h)).edges.last()) }
            &&& forall|q: usize| q != old(self).node.a && q != old(self).nv(old(h)).edges.last() ==> #[trigger] final(h).n(q) == old(h).n(q)
            &&& final(h).linked(old(self).node.a)
        },
//@at /\(key, val, edge\)/
    proof { if self.height == 0 { assert(h.n(self.node.a) =~~= NodeV { keys: old(self).nv(old(h)).keys.drop_last(), vals: old(self).nv(old(h)).vals.drop_last(), ..old(self).nv(old(h)) }); }
        else { assert(old(self).nv(old(h)).edges.last() == old(self).nv(old(h)).edges[old(self).nv(old(h)).edges.len() - 1]); assert(h.n(self.node.a) =~~= NodeV { keys: old(self).nv(old(h)).keys.drop_last(), vals: old(self).nv(old(h)).vals.drop_last(), edges: old(self).nv(old(h)).edges.drop_last(), ..old(self).nv(old(h)) }); } }
//@end
//@fn src/btree/node.rs | impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal> | pop_front | C11 C12 C15 C16
//@  heap mut
    requires old(self).own(old(h)), old(self).nv(old(h)).keys.len() > 0, old(self).height > 0 ==> old(h).linked(old(self).node.a),
    ensures *final(self) == *old(self), final(h).wf(), final(h).dom() == old(h).dom(),
        r.0 == old(self).nv(old(h)).keys[0], r.1 == old(self).nv(old(h)).vals[0],
        old(self).height == 0 ==> r.2 is None && final(h).upd(old(h), old(self).node.a, NodeV { keys: old(self).nv(old(h)).keys.remove(0), vals: old(self).nv(old(h)).vals.remove(0), ..old(self).nv(old(h)) }),
        old(self).height > 0 ==> {
            &&& r.2 is Some && r.2->Some_0.node.ptr.a == old(self).nv(old(h)).edges[0] && r.2->Some_0.height == old(self).height - 1
            &&& final(h).n(old(self).node.a) == NodeV { keys: old(self).nv(old(h)).keys.remove(0), vals: old(self).nv(old(h)).vals.remove(0), edges: old(self).nv(old(h)).edges.remove(0), ..old(self).nv(old(h)) }
            &&& final(h).n(old(self).nv(old(h)).edges[0]) == NodeV { parent: 0, ..old(h).n(old(self).nv(old(h)).edges[0]) }
            &&& final(h).besides(old(h), set![old(self).node.a], old(self).nv(old(h)).edges[0])
            &&& final(h).linked(old(self).node.a)
        },
//@at /for i in 0/
    let ghost h1 = *h; let ghost p = old(self).node.a; let ghost es = h1.n(p).edges; let ghost e0 = edge.ptr.a;
    proof { assert(forall|i: int| 0 <= i < old_len ==> es[i] == old(self).nv(old(h)).edges[i + 1]); 
        assert(old(self).nv(old(h)).edges[0] == edge.ptr.a);
        assert forall|q: usize| q != p && q != edge.ptr.a implies #[trigger] h1.n(q) == old(h).n(q) by { }
        assert(old(h).child_ok(p, 0, e0));
        assert(old(self).nv(old(h)).edges.len() == old_len + 1 && es.len() == old_len + 1);
        assert forall|i: int| 0 <= i < old_len implies #[trigger] es[i] != e0 by { assert(old(h).child_ok(p, i + 1, old(self).nv(old(h)).edges[i + 1])); }
        assert(!within(es, 0, old_len as int, e0));
        assert(h1.n(e0) =~~= NodeV { parent: 0, ..old(h).n(e0) }); }
//@loop 0
    invariant
        p == old(self).node.a, internal.node == old(self).node, internal.height == old(self).height, internal.height > 0, internal.inner(h), old_len <= 11, internal.own(h),
        es == h1.n(p).edges, h.n(p) == h1.n(p), es.len() == old_len + 1, h1.n(p).keys.len() == old_len,
        distinct(es, 0, old_len as int),
        forall|i: int| 0 <= i < old_len ==> #[trigger] es[i] != p && h1.dom().contains(es[i]),
        h.relink(&h1, p, es, 0, i as int), !within(es, 0, old_len as int, e0), h.n(e0) == h1.n(e0),
//@at /Some\(new_root\)/
    proof { let p = old(self).node.a;
        assert(h.n(p).ok && h.n(p).keys.len() == old_len);
        assert(forall|i: int| 0 <= i < old_len - 1 ==> h.n(p).keys[i] == old(self).nv(old(h)).keys[i + 1]);
        assert(forall|i: int| 0 <= i < old_len - 1 ==> h.n(p).vals[i] == old(self).nv(old(h)).vals[i + 1]);
        assert(forall|i: int| 0 <= i < old_len ==> h.n(p).edges[i] == old(self).nv(old(h)).edges[i + 1]);
    }
//@at /\{ let vx_n = self/
    let ghost h2 = *h;
    proof { assert(h2.n(self.node.a).keys == nodev(h2.hd@[self.node.a], h2.ks@[self.node.a], h2.vs@[self.node.a], h2.es@[self.node.a]).keys); }
//@at /\(key, val, edge\)/
    proof { let p = self.node.a;
        if self.height > 0 {
            assert forall|i: int| 0 <= i < old_len - 1 implies h.n(p).keys[i] == old(self).nv(old(h)).keys[i + 1] by { assert(h2.n(p).keys[i] == old(self).nv(old(h)).keys[i + 1]); }
            assert forall|i: int| 0 <= i < old_len - 1 implies h.n(p).vals[i] == old(self).nv(old(h)).vals[i + 1] by { assert(h2.n(p).vals[i] == old(self).nv(old(h)).vals[i + 1]); }
            assert forall|i: int| 0 <= i < old_len implies h.n(p).edges[i] == old(self).nv(old(h)).edges[i + 1] by { assert(h2.n(p).edges[i] == old(self).nv(old(h)).edges[i + 1]); }
        }
        if self.height > 0 {
            let e0 = old(self).nv(old(h)).edges[0];
            assert(forall|i: int| 0 <= i < old(self).nv(old(h)).edges.len() ==> old(h).child_ok(p, i, #[trigger] old(self).nv(old(h)).edges[i]));
            assert(old(h).child_ok(p, 0, e0));
            assert forall|i: int| 0 < i < old(self).nv(old(h)).edges.len() implies #[trigger] old(self).nv(old(h)).edges[i] != e0 by { }
            assert(h2.n(e0) =~~= NodeV { parent: 0, ..old(h).n(e0) });
            assert forall|q: usize| q != p && q != e0 implies #[trigger] h2.n(q) == old(h).n(q) || old(h).n(q).parent == p && h2.n(q) == (NodeV { parent: h2.n(q).parent, pidx: h2.n(q).pidx, ..old(h).n(q) }) by { }
            assert(h.n(e0) =~~= NodeV { parent: 0, ..old(h).n(e0) });
            assert forall|i: int| 0 <= i < h.n(p).edges.len() implies h.child_ok(p, i, #[trigger] h.n(p).edges[i]) by { assert(h2.n(p).edges[i] == old(self).nv(old(h)).edges[i + 1]); }
        }
        if self.height == 0 { assert(h.n(self.node.a) =~~= NodeV { keys: old(self).nv(old(h)).keys.remove(0), vals: old(self).nv(old(h)).vals.remove(0), ..old(self).nv(old(h)) }); }
        else { assert(h.n(self.node.a) =~~= NodeV { keys: old(self).nv(old(h)).keys.remove(0), vals: old(self).nv(old(h)).vals.remove(0), edges: old(self).nv(old(h)).edges.remove(0), ..old(self).nv(old(h)) });
            let e0 = old(self).nv(old(h)).edges[0]; let ps = set![p];
            assert forall|q: usize| old(h).dom().contains(q) && q != e0 && !ps.contains(q) implies #[trigger] h.n(q) == (NodeV { parent: h.n(q).parent, pidx: h.n(q).pidx, ..old(h).n(q) })
                && (!ps.contains(old(h).n(q).parent) ==> h.n(q) == old(h).n(q)) by {
                assert(q != p && q != e0); assert(h2.n(q) == h.n(q)); } 
            assert(h.besides(old(h), ps, e0)); } }
//@end
}

// ---- boxes of nodes ----
impl<K, V> Box<LeafNode<K, V>> {
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: RS<K>) ensures r.a() == self.p.a, r.off() == 0, r.n() == 11 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_vals(&self) -> (r: RS<V>) ensures r.a() == self.p.a, r.off() == 0, r.n() == 11 { unimplemented!() }
}
impl<K, V> Box<InternalNode<K, V>> {
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: RS<K>) ensures r.a() == self.p.a, r.off() == 0, r.n() == 11 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_vals(&self) -> (r: RS<V>) ensures r.a() == self.p.a, r.off() == 0, r.n() == 11 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_edges(&self) -> (r: RS<BoxedNode<K, V>>) ensures r.a() == self.p.a, r.off() == 0, r.n() == 12 { unimplemented!() }
}
impl<K, V> LeafNode<K, V> {
//@fn src/btree/node.rs | impl<K, V> LeafNode<K, V> | new | C11 C16
//@  rw /MaybeUninit::uninit(?:_array::<CAPACITY>)?\(\)/ => vx_unset()
//@  rw /LeafNode \{/ => LeafNode { _marker: PhantomData,
    ensures r.len == 0, r.parent.a == 0,
//@end
}
impl<K, V> InternalNode<K, V> {
//@fn src/btree/node.rs | impl<K, V> InternalNode<K, V> | new | C11 C16
//@  rw /MaybeUninit::uninit_array::<\{ 2 \* B \}>\(\)/ => vx_unset()
    ensures r.data.len == 0, r.data.parent.a == 0,
//@end
}
pub fn vx_into_unique<T>(b: Box<T>) -> (r: (P, ())) ensures r.0 == b.p { (b.p, ()) }
impl<K, V> BoxedNode<K, V> {
//@fn src/btree/node.rs | impl<K, V> BoxedNode<K, V> | from_leaf | C11 C16 C17
//@  rw /BoxedNode \{/ => BoxedNode { _marker: PhantomData,
//@  rw /Box::into_unique\(/ => vx_into_unique(
    ensures r.ptr == node.p,
//@end
//@fn src/btree/node.rs | impl<K, V> BoxedNode<K, V> | from_internal | C11 C16 C17
//@  rw /BoxedNode \{/ => BoxedNode { _marker: PhantomData,
//@  rw /Unique::new_unchecked\(Box::into_raw\(node\) as \*mut LeafNode<K, V>\)/ => node.p
    ensures r.ptr == node.p,
//@end
//@fn src/btree/node.rs | impl<K, V> BoxedNode<K, V> | from_ptr | C11 C16 C17
//@  rw /BoxedNode \{/ => BoxedNode { _marker: PhantomData,
//@  sig /NonNull<LeafNode<K, V>>/ => P
//@  rw /Unique::new_unchecked\(ptr\.as_ptr\(\)\)/ => ptr
    ensures r.ptr == ptr,
//@end
}
/// FallibleBox::try_new (under contract in the unit small): the node has a place of its own, or nothing happened
#[verifier::external_body]
pub fn vx_box_leaf<K, V>(x: LeafNode<K, V>, h: &mut Heap<K, V>) -> (r: Result<Box<LeafNode<K, V>>, TryReserveError>)
    requires old(h).wf(),
    ensures r is Err ==> *final(h) == *old(h),
        r is Ok && x.len == 0 && x.parent.a == 0 ==> final(h).grown(old(h), r->Ok_0.p.a, true),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_box_internal<K, V>(x: InternalNode<K, V>, h: &mut Heap<K, V>) -> (r: Result<Box<InternalNode<K, V>>, TryReserveError>)
    requires old(h).wf(),
    ensures r is Err ==> *final(h) == *old(h),
        r is Ok && x.data.len == 0 && x.data.parent.a == 0 ==> final(h).grown(old(h), r->Ok_0.p.a, false),
{ unimplemented!() }
/// Global.deallocate with the layout of a leaf node
#[verifier::external_body]
pub fn vx_free_leaf<K, V>(p: P, h: &mut Heap<K, V>)
    requires old(h).wf(), old(h).dom().contains(p.a), old(h).hd@[p.a].leaf,
    ensures final(h).shrunk(old(h), p.a),
{ unimplemented!() }
/// Global.deallocate with the layout of an internal node
#[verifier::external_body]
pub fn vx_free_internal<K, V>(p: P, h: &mut Heap<K, V>)
    requires old(h).wf(), old(h).dom().contains(p.a), !old(h).hd@[p.a].leaf,
    ensures final(h).shrunk(old(h), p.a),
{ unimplemented!() }

impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge> {
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge> | insert_fit | C11 C12 C16 C19
//@  heap mut
//@  sig /\*mut V/ => RP<V>
    requires old(self).node.own(old(h)), old(self).node.nv(old(h)).keys.len() < 11, old(self).idx <= old(self).node.nv(old(h)).keys.len(),
    ensures *final(self) == *old(self), final(h).wf(), final(h).dom() == old(h).dom(),
        final(h).es@ == old(h).es@, final(h).kvok(old(self).node.node.a),
        final(h).hd@ == old(h).hd@.insert(old(self).node.node.a, Hdr { len: (old(self).node.nv(old(h)).keys.len() + 1) as u16, ..old(h).hd@[old(self).node.node.a] }),
        final(h).n(old(self).node.node.a).keys == old(self).node.nv(old(h)).keys.insert(old(self).idx as int, key),
        final(h).n(old(self).node.node.a).vals == old(self).node.nv(old(h)).vals.insert(old(self).idx as int, val),
        old(self).node.height == 0 ==> final(h).n(old(self).node.node.a) == (NodeV { keys: old(self).node.nv(old(h)).keys.insert(old(self).idx as int, key), vals: old(self).node.nv(old(h)).vals.insert(old(self).idx as int, val), ..old(self).node.nv(old(h)) }),
        forall|q: usize| q != old(self).node.node.a ==> #[trigger] final(h).n(q) == old(h).n(q),
        r.a() == old(self).node.node.a, r.off() == old(self).idx,
//@after /h\.hd\.set_len\(vx_n, vx_l\); \}/
    proof { assert(h.n(self.node.node.a).keys =~= old(self).node.nv(old(h)).keys.insert(old(self).idx as int, key));
        assert(h.n(self.node.node.a).vals =~= old(self).node.nv(old(h)).vals.insert(old(self).idx as int, val));
        if self.node.height == 0 { assert(h.n(self.node.node.a) =~~= NodeV { keys: old(self).node.nv(old(h)).keys.insert(old(self).idx as int, key), vals: old(self).node.nv(old(h)).vals.insert(old(self).idx as int, val), ..old(self).node.nv(old(h)) }); } }
//@end
}
impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV> {
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV> | split | C11 C12 C16 C19
//@  heap mut
//@  rw /new_node\.(keys|vals)\.as_mut_ptr\(\) as \*mut \w+/ => new_node.vx_\1().as_mut_ptr()
//@  rw /new_node\.len = ([^;]*);/ => h.hd.set_len(new_node.p, \1);
    requires self.node.own(old(h)), self.node.height == 0, self.idx < self.node.nv(old(h)).keys.len(), old(h).fresh(new_node.p.a, true), new_node.p.a != self.node.node.a,
    ensures r.0 == self.node, r.1 == self.node.nv(old(h)).keys[self.idx as int], r.2 == self.node.nv(old(h)).vals[self.idx as int],
        r.3.node.ptr == new_node.p, r.3.height == 0, final(h).wf(), final(h).dom() == old(h).dom(),
        final(h).n(self.node.node.a) == (NodeV { keys: self.node.nv(old(h)).keys.take(self.idx as int), vals: self.node.nv(old(h)).vals.take(self.idx as int), ..self.node.nv(old(h)) }),
        final(h).n(new_node.p.a) == (NodeV { ok: true, keys: self.node.nv(old(h)).keys.skip(self.idx + 1), vals: self.node.nv(old(h)).vals.skip(self.idx + 1), ..old(h).n(new_node.p.a) }),
        forall|q: usize| q != self.node.node.a && q != new_node.p.a ==> #[trigger] final(h).n(q) == old(h).n(q),
//@at /\(\s*vx_self\.node,\s*k,/
    proof { let p = self.node.node.a; let o = self.node.nv(old(h)); let i = self.idx as int;
        assert(h.n(p) =~~= NodeV { keys: o.keys.take(i), vals: o.vals.take(i), ..o });
        assert(h.n(new_node.p.a) =~~= NodeV { ok: true, keys: o.keys.skip(i + 1), vals: o.vals.skip(i + 1), ..old(h).n(new_node.p.a) }); }
//@end
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV> | remove | C11 C12
//@  heap mut
    requires self.node.own(old(h)), self.node.height == 0, self.idx < self.node.nv(old(h)).keys.len(),
    ensures r.0.node == self.node, r.0.idx == self.idx, r.1 == self.node.nv(old(h)).keys[self.idx as int], r.2 == self.node.nv(old(h)).vals[self.idx as int],
        final(h).upd(old(h), self.node.node.a, NodeV { keys: self.node.nv(old(h)).keys.remove(self.idx as int), vals: self.node.nv(old(h)).vals.remove(self.idx as int), ..self.node.nv(old(h)) }),
//@after /h\.hd\.set_len\(vx_n, vx_l\); \}/
    proof { let o = self.node.nv(old(h)); let i = self.idx as int;
        assert(h.n(self.node.node.a) =~~= NodeV { keys: o.keys.remove(i), vals: o.vals.remove(i), ..o }); }
//@end
}

impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::Edge> {
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::Edge> | cast_unchecked | C11 C12 C16
//@  as cast_unchecked_h
//@  heap ref
    requires h.live(old(self).node.node.a), old(self).idx <= old(self).node.nv(h).keys.len(),
    ensures r.node.is(&old(self).node), r.idx == old(self).idx, *final(self) == *old(self),
//@end
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::Edge> | insert_fit | C11 C12 C16 C19
//@  heap mut
//@  rw /self\.cast_unchecked::/ => self.cast_unchecked_h::
    requires old(self).node.own(old(h)), old(self).node.height > 0, old(self).node.nv(old(h)).keys.len() < 11, old(self).idx <= old(self).node.nv(old(h)).keys.len(),
        edge.height == old(self).node.height - 1, old(h).dom().contains(edge.node.ptr.a), edge.node.ptr.a != old(self).node.node.a,
        old(h).linked(old(self).node.node.a), old(h).n(edge.node.ptr.a).parent != old(self).node.node.a,
    ensures *final(self) == *old(self), final(h).wf(), final(h).dom() == old(h).dom(),
        final(h).n(old(self).node.node.a) == (NodeV { keys: old(self).node.nv(old(h)).keys.insert(old(self).idx as int, key), vals: old(self).node.nv(old(h)).vals.insert(old(self).idx as int, val), edges: old(self).node.nv(old(h)).edges.insert(old(self).idx + 1, edge.node.ptr.a), ..old(self).node.nv(old(h)) }),
        final(h).linked(old(self).node.node.a), final(h).besides(old(h), set![old(self).node.node.a], edge.node.ptr.a), final(h).n(edge.node.ptr.a) == (NodeV { parent: old(self).node.node.a, pidx: old(self).idx + 1, ..old(h).n(edge.node.ptr.a) }),
        forall|q: usize| q != old(self).node.node.a && !within(final(h).n(old(self).node.node.a).edges, 0, final(h).n(old(self).node.node.a).edges.len() as int, q) ==> #[trigger] final(h).n(q) == old(h).n(q),
//@after /insert_fit\(key, val, h\);/
    let ghost h0 = *h;
//@at /for i in /
    let ghost p = self.node.node.a; let ghost h1 = *h; let ghost es = h.n(p).edges; let ghost o = old(self).node.nv(old(h)); let ghost n1 = self.node.nv(h).keys.len() as int; let ghost x = self.idx as int;
    proof {
        assert(h.n(p).edges =~= o.edges.insert(x + 1, edge.node.ptr.a));
        assert(h.n(p) =~~= NodeV { keys: o.keys.insert(x, key), vals: o.vals.insert(x, val), edges: o.edges.insert(x + 1, edge.node.ptr.a), ..o });
        assert(forall|i: int| 0 <= i < o.edges.len() ==> old(h).child_ok(p, i, #[trigger] o.edges[i]));
        assert forall|q: usize| q != p implies #[trigger] h1.n(q) == old(h).n(q) by { assert(h0.n(q) == old(h).n(q)); }
        assert(forall|i: int| x + 2 <= i < es.len() ==> #[trigger] es[i] == o.edges[i - 1]);
        assert(forall|i: int| 0 <= i <= x ==> #[trigger] es[i] == o.edges[i]);
        assert(distinct(es, 0, es.len() as int));
        assert(forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] != p && h1.dom().contains(es[i]));
    }
//@loop 0
    invariant
        vx_end0 == n1 + 1, p == self.node.node.a, *self == *old(self), x == self.idx, x + 1 <= n1, self.node.inner(h), n1 <= 11, es == h1.n(p).edges, es.len() == n1 + 1, h1.n(p).keys.len() == n1, h.n(p) == h1.n(p),
        distinct(es, 0, es.len() as int), forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] != p && h1.dom().contains(es[i]),
        h.relink(&h1, p, es, x + 1, i as int),
//@at /\}\s*\}$/
    proof {
        assert(o.edges.len() == n1); assert(es.len() == n1 + 1);
        assert(h.relink(&h1, p, es, x + 1, n1 + 1));
        assert(es[x + 1] == edge.node.ptr.a);
        assert forall|i: int| 0 <= i < h.n(p).edges.len() implies h.child_ok(p, i, #[trigger] h.n(p).edges[i]) by {
            if i <= x { assert(!within(es, x + 1, n1 + 1, es[i])); assert(old(h).child_ok(p, i, o.edges[i])); assert(es[i] != p); }
        }
        let ps = set![p];
        assert forall|q: usize| old(h).dom().contains(q) && q != edge.node.ptr.a && !ps.contains(q) implies #[trigger] h.n(q) == (NodeV { parent: h.n(q).parent, pidx: h.n(q).pidx, ..old(h).n(q) })
            && (!ps.contains(old(h).n(q).parent) ==> h.n(q) == old(h).n(q)) by { assert(q != p); }
    }
//@end
}
impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> {
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> | split | C11 C12 C16 C19
//@  heap mut
//@  rw /new_node\.data\.(keys|vals)\.as_mut_ptr\(\) as \*mut \w+/ => new_node.vx_\1().as_mut_ptr()
//@  rw /new_node\.edges\.as_mut_ptr\(\)/ => new_node.vx_edges().as_mut_ptr()
//@  rw /new_node\.data\.len = ([^;]*);/ => h.hd.set_len(new_node.p, \1);
    requires self.node.own(old(h)), self.node.height > 0, self.idx < self.node.nv(old(h)).keys.len(), old(h).fresh(new_node.p.a, false), new_node.p.a != self.node.node.a,
        old(h).linked(self.node.node.a),
    ensures r.0 == self.node, r.1 == self.node.nv(old(h)).keys[self.idx as int], r.2 == self.node.nv(old(h)).vals[self.idx as int],
        r.3.node.ptr == new_node.p, r.3.height == self.node.height, final(h).wf(), final(h).dom() == old(h).dom(),
        final(h).n(self.node.node.a) == (NodeV { keys: self.node.nv(old(h)).keys.take(self.idx as int), vals: self.node.nv(old(h)).vals.take(self.idx as int), edges: self.node.nv(old(h)).edges.take(self.idx + 1), ..self.node.nv(old(h)) }),
        final(h).n(new_node.p.a) == (NodeV { ok: true, keys: self.node.nv(old(h)).keys.skip(self.idx + 1), vals: self.node.nv(old(h)).vals.skip(self.idx + 1), edges: self.node.nv(old(h)).edges.skip(self.idx + 1), ..old(h).n(new_node.p.a) }),
        final(h).linked(self.node.node.a), final(h).linked(new_node.p.a), final(h).around(old(h), set![self.node.node.a, new_node.p.a]),
        forall|q: usize| q != self.node.node.a && q != new_node.p.a && !within(final(h).n(new_node.p.a).edges, 0, final(h).n(new_node.p.a).edges.len() as int, q) ==> #[trigger] final(h).n(q) == old(h).n(q),
//@at /for i in /
    let ghost p = self.node.node.a; let ghost w = new_node.p.a; let ghost h1 = *h; let ghost es = h.n(w).edges; let ghost o = self.node.nv(old(h)); let ghost x = self.idx as int;
    proof {
        assert(h.n(p) =~~= NodeV { keys: o.keys.take(x), vals: o.vals.take(x), edges: o.edges.take(x + 1), ..o });
        assert(h.n(w) =~~= NodeV { ok: true, keys: o.keys.skip(x + 1), vals: o.vals.skip(x + 1), edges: o.edges.skip(x + 1), ..old(h).n(w) });
        assert(forall|i: int| 0 <= i < o.edges.len() ==> old(h).child_ok(p, i, #[trigger] o.edges[i]));
        assert(forall|q: usize| q != p && q != w ==> #[trigger] h1.n(q) == old(h).n(q));
        assert(forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] == o.edges[i + x + 1]);
        assert(distinct(es, 0, es.len() as int));
        assert(p != 0);
        assert(forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] != p && es[i] != w && h1.dom().contains(es[i]));
    }
//@loop 0
    invariant
        p == self.node.node.a, w == new_root.node.ptr.a, new_root.height == self.node.height, new_root.height > 0, h.wf(), h.dom() == h1.dom(), es == h1.n(w).edges, es.len() == new_len + 1, h1.n(w).keys.len() == new_len, new_len <= 11,
        h.n(w) == h1.n(w), h.n(p) == h1.n(p), h1.n(w).ok, !h1.n(w).leaf, h1.dom().contains(w),
        distinct(es, 0, es.len() as int), forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] != p && es[i] != w && h1.dom().contains(es[i]),
        h.relink(&h1, w, es, 0, i as int), w != SHARED,
//@at /\(vx_self\.node, k, v, new_root/
    proof {
        assert(h.relink(&h1, w, es, 0, es.len() as int));
        assert forall|i: int| 0 <= i < h.n(p).edges.len() implies h.child_ok(p, i, #[trigger] h.n(p).edges[i]) by {
            assert(h.n(p).edges[i] == o.edges[i]); assert(old(h).child_ok(p, i, o.edges[i]));
            assert(forall|j: int| 0 <= j < es.len() ==> #[trigger] es[j] != o.edges[i]);
            assert(!within(es, 0, es.len() as int, o.edges[i])); assert(o.edges[i] != w);
        }
        assert forall|i: int| 0 <= i < h.n(w).edges.len() implies h.child_ok(w, i, #[trigger] h.n(w).edges[i]) by { }
        let ps = set![p, w];
        assert forall|q: usize| old(h).dom().contains(q) && !ps.contains(q) implies #[trigger] h.n(q) == (NodeV { parent: h.n(q).parent, pidx: h.n(q).pidx, ..old(h).n(q) })
            && (!ps.contains(old(h).n(q).parent) ==> h.n(q) == old(h).n(q)) by { assert(q != p && q != w); }
    }
//@end
}

// ---- nodes set aside for splits ----
pub struct SpareNodes<K, V> { pub leaf: Option<Box<LeafNode<K, V>>>, pub internals: Vec<Box<InternalNode<K, V>>> }
impl<K, V> SpareNodes<K, V> {
    /// the nodes set aside are new and distinct
    pub open spec fn ok(&self, h: &Heap<K, V>) -> bool {
        &&& self.leaf is Some ==> h.fresh(self.leaf->Some_0.p.a, true)
        &&& forall|i: int| 0 <= i < self.internals@.len() ==> h.fresh((#[trigger] self.internals@[i]).p.a, false)
        &&& forall|i: int, j: int| 0 <= i < j < self.internals@.len() ==> (#[trigger] self.internals@[i]).p.a != (#[trigger] self.internals@[j]).p.a
    }
    pub open spec fn has(&self, q: usize) -> bool {
        self.leaf is Some && self.leaf->Some_0.p.a == q || exists|i: int| 0 <= i < self.internals@.len() && (#[trigger] self.internals@[i]).p.a == q
    }
}
/// Vec::try_reserve: room for one more, or nothing happened
#[verifier::external_body]
pub fn vx_reserve<T>(v: &mut Vec<T>, n: usize) -> (r: Result<(), TryReserveError>)
    ensures final(v)@ == old(v)@,
{ unimplemented!() }
/// Vec::push into the room reserved
#[verifier::external_body]
pub fn vx_push<T>(v: &mut Vec<T>, x: T)
    ensures final(v)@ == old(v)@.push(x),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_pop<T>(v: &mut Vec<T>) -> (r: Option<T>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r == Some(old(v)@.last()) && final(v)@ == old(v)@.drop_last(),
{ unimplemented!() }
impl<K, V> SpareNodes<K, V> {
//@fn src/btree/node.rs | impl<K, V> SpareNodes<K, V> | take_leaf | C11 C16
//@  heap none
    requires old(self).leaf is Some,
    ensures r == old(self).leaf->Some_0, final(self).leaf is None, final(self).internals == old(self).internals,
//@end
//@fn src/btree/node.rs | impl<K, V> SpareNodes<K, V> | take_internal | C11 C16
//@  heap none
//@  rw /self\.internals\s*\.pop\(\)/ => vx_pop(&mut self.internals)
    requires old(self).internals@.len() > 0,
    ensures r == old(self).internals@.last(), final(self).internals@ == old(self).internals@.drop_last(), final(self).leaf == old(self).leaf,
//@end
//@fn src/btree/node.rs | impl<K, V> SpareNodes<K, V> | add_internal | C03 C11 C16 C17
//@  heap mut
//@  rw /self\.internals\.try_reserve\(1\)/ => vx_reserve(&mut self.internals, 1)
//@  rw /self\.internals\s*\.push\(/ => vx_push(&mut self.internals, 
//@  rw /<Box<_> as FallibleBox<_>>::try_new\(unsafe \{\s*(InternalNode::new\(\))\s*\}\)/ => vx_box_internal(\1, h)
    requires old(h).wf(), old(self).ok(old(h)),
    ensures final(self).leaf == old(self).leaf, final(self).ok(final(h)),
        r is Err ==> *final(h) == *old(h) && final(self).internals@ == old(self).internals@,
        r is Ok ==> final(self).internals@.len() == old(self).internals@.len() + 1 && final(self).internals@.drop_last() == old(self).internals@ && final(h).grown(old(h), final(self).internals@.last().p.a, false),
//@at /Ok\(\(\)\)/
    proof { assert(self.internals@.drop_last() =~= old(self).internals@); }
//@end
}
impl<K, V> Root<K, V> {
//@fn src/btree/node.rs | impl<K, V> Root<K, V> | new_leaf | C03 C11 C16 C17
//@  heap mut
//@  rw /<Box<_> as FallibleBox<_>>::try_new\(unsafe \{\s*(LeafNode::new\(\))\s*\}\)/ => vx_box_leaf(\1, h)
    requires old(h).wf(),
    ensures r is Err ==> *final(h) == *old(h),
        r is Ok ==> r->Ok_0.height == 0 && final(h).grown(old(h), r->Ok_0.node.ptr.a, true),
//@end
//@fn src/btree/node.rs | impl<K, V> Root<K, V> | push_level_into | C11 C12 C16
//@  heap mut
//@  rw /new_node\.edges\[0\]\.write\(/ => ptr::write(new_node.vx_edges().as_mut_ptr(), 
    requires old(h).wf(), old(h).dom().contains(old(self).node.ptr.a), old(h).fresh(new_node.p.a, false), new_node.p.a != old(self).node.ptr.a, old(self).height < usize::MAX,
    ensures final(self).node.ptr == new_node.p, final(self).height == old(self).height + 1, r.node == new_node.p, r.height == final(self).height,
        final(h).wf(), final(h).dom() == old(h).dom(),
        final(h).n(new_node.p.a) == (NodeV { ok: true, edges: seq![old(self).node.ptr.a], ..old(h).n(new_node.p.a) }),
        final(h).n(old(self).node.ptr.a) == (NodeV { parent: new_node.p.a, pidx: 0, ..old(h).n(old(self).node.ptr.a) }),
        forall|q: usize| q != old(self).node.ptr.a && q != new_node.p.a ==> #[trigger] final(h).n(q) == old(h).n(q),
//@at /ret\.reborrow_mut/
    proof { assert(h.n(new_node.p.a) =~~= NodeV { ok: true, edges: seq![old(self).node.ptr.a], ..old(h).n(new_node.p.a) }); }
//@end
//@fn src/btree/node.rs | impl<K, V> Root<K, V> | push_level | C03 C11 C12
//@  heap mut
//@  rw /<Box<_> as FallibleBox<_>>::try_new\(unsafe \{\s*(InternalNode::new\(\))\s*\}\)/ => vx_box_internal(\1, h)
    requires old(h).wf(), old(h).dom().contains(old(self).node.ptr.a), old(self).height < usize::MAX,
    ensures r is Err ==> *final(h) == *old(h) && *final(self) == *old(self),
        r is Ok ==> {
            let w = final(self).node.ptr.a;
            &&& !old(h).dom().contains(w) && final(self).height == old(self).height + 1 && r->Ok_0.node.a == w && r->Ok_0.height == final(self).height
            &&& final(h).wf() && final(h).dom() == old(h).dom().insert(w)
            &&& final(h).n(w) == (NodeV { leaf: false, ok: true, parent: 0, pidx: final(h).n(w).pidx, keys: Seq::<K>::empty(), vals: Seq::<V>::empty(), edges: seq![old(self).node.ptr.a] })
            &&& final(h).n(old(self).node.ptr.a) == (NodeV { parent: w, pidx: 0, ..old(h).n(old(self).node.ptr.a) })
            &&& forall|q: usize| q != old(self).node.ptr.a && q != w ==> #[trigger] final(h).n(q) == old(h).n(q)
        },
//@at /Ok\(self/
    proof { assert(h.n(new_node.p.a).keys =~= Seq::<K>::empty()); assert(h.n(new_node.p.a).vals =~= Seq::<V>::empty()); }
//@end
//@fn src/btree/node.rs | impl<K, V> Root<K, V> | push_level_spare | C11 C12 C16 C19
//@  heap mut
    requires old(h).wf(), old(h).dom().contains(old(self).node.ptr.a), old(self).height < usize::MAX,
        old(spare).internals@.len() > 0, old(h).fresh(old(spare).internals@.last().p.a, false), old(spare).internals@.last().p.a != old(self).node.ptr.a,
    ensures final(spare).leaf == old(spare).leaf, final(spare).internals@ == old(spare).internals@.drop_last(),
        final(self).node.ptr.a == old(spare).internals@.last().p.a, final(self).height == old(self).height + 1, r.node == final(self).node.ptr, r.height == final(self).height,
        final(h).wf(), final(h).dom() == old(h).dom(),
        final(h).n(final(self).node.ptr.a) == (NodeV { leaf: false, ok: true, parent: 0, pidx: final(h).n(final(self).node.ptr.a).pidx, keys: Seq::<K>::empty(), vals: Seq::<V>::empty(), edges: seq![old(self).node.ptr.a] }),
        final(h).n(old(self).node.ptr.a) == (NodeV { parent: final(self).node.ptr.a, pidx: 0, ..old(h).n(old(self).node.ptr.a) }),
        forall|q: usize| q != old(self).node.ptr.a && q != final(self).node.ptr.a ==> #[trigger] final(h).n(q) == old(h).n(q),
//@body
    proof { let w = old(spare).internals@.last().p.a; assert(old(h).n(w).keys =~= Seq::<K>::empty()); assert(old(h).n(w).vals =~= Seq::<V>::empty()); }
//@end
//@fn src/btree/node.rs | impl<K, V> Root<K, V> | pop_level | C11 C12 C15 C17
//@  heap mut
    requires old(h).wf(), old(h).dom().contains(old(self).node.ptr.a), old(self).height > 0, old(h).n(old(self).node.ptr.a).ok, !old(h).n(old(self).node.ptr.a).leaf,
        old(h).linked(old(self).node.ptr.a), old(h).n(old(self).node.ptr.a).keys.len() == 0,
    ensures final(self).node.ptr.a == old(h).n(old(self).node.ptr.a).edges[0], final(self).height == old(self).height - 1,
        final(h).wf(), final(h).dom() == old(h).dom().remove(old(self).node.ptr.a),
        final(h).n(final(self).node.ptr.a) == (NodeV { parent: 0, ..old(h).n(final(self).node.ptr.a) }),
        forall|q: usize| q != old(self).node.ptr.a && q != final(self).node.ptr.a ==> #[trigger] final(h).n(q) == old(h).n(q),
//@body
    proof { assert(old(h).child_ok(old(self).node.ptr.a, 0, old(h).n(old(self).node.ptr.a).edges[0])); }
//@after /set_parent\(vx_n, vx_null\(\)\); \}/
    proof { assert(h.n(self.node.ptr.a) =~~= NodeV { parent: 0, ..old(h).n(self.node.ptr.a) }); }
//@end
}

/// where a full node is split for an insertion at edge `i`, and its parts
pub open spec fn mid(i: int) -> int { if i <= 6 { 7 } else { 6 } }

impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge> {
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge> | insert | C11 C12 C16 C19
//@  heap mut
//@  sig /\*mut V/ => RP<V>
    requires self.node.own(old(h)), self.node.height == 0, self.idx <= self.node.nv(old(h)).keys.len(),
        self.node.nv(old(h)).keys.len() == 11 ==> old(spare).leaf is Some && old(h).fresh(old(spare).leaf->Some_0.p.a, true) && old(spare).leaf->Some_0.p.a != self.node.node.a,
    ensures final(h).wf(), final(h).dom() == old(h).dom(), final(spare).internals == old(spare).internals,
        ({
            let p = self.node.node.a; let o = self.node.nv(old(h)); let i = self.idx as int;
            let ks = o.keys.insert(i, key); let vs = o.vals.insert(i, val);
            if o.keys.len() < 11 {
                &&& r.0 is Fit && r.0->Fit_0.node == self.node && r.0->Fit_0.idx == self.idx && final(spare).leaf == old(spare).leaf
                &&& final(h).n(p) == NodeV { keys: ks, vals: vs, ..o }
                &&& forall|q: usize| q != p ==> #[trigger] final(h).n(q) == old(h).n(q)
                &&& r.1.a() == p && r.1.off() == i
            } else {
                let w = old(spare).leaf->Some_0.p.a; let m = mid(i);
                &&& r.0 is Split && r.0->Split_0 == self.node && r.0->Split_1 == ks[m] && r.0->Split_2 == vs[m]
                &&& r.0->Split_3.node.ptr.a == w && r.0->Split_3.height == 0 && final(spare).leaf is None
                &&& final(h).n(p) == NodeV { keys: ks.take(m), vals: vs.take(m), ..o }
                &&& final(h).n(w) == NodeV { ok: true, keys: ks.skip(m + 1), vals: vs.skip(m + 1), ..old(h).n(w) }
                &&& forall|q: usize| q != p && q != w ==> #[trigger] final(h).n(q) == old(h).n(q)
                &&& r.1.a() == (if i <= 6 { p } else { w }) && r.1.off() == (if i <= 6 { i } else { i - 7 })
            }
        }),
//@at /\(InsertResult::Split/
    proof {
        let p = self.node.node.a; let o = self.node.nv(old(h)); let i = self.idx as int; let w = old(spare).leaf->Some_0.p.a; let m = mid(i);
        let ks = o.keys.insert(i, key); let vs = o.vals.insert(i, val);
        assert(h.n(p) =~~= NodeV { keys: ks.take(m), vals: vs.take(m), ..o });
        assert(h.n(w) =~~= NodeV { ok: true, keys: ks.skip(m + 1), vals: vs.skip(m + 1), ..old(h).n(w) });
    }
//@end
}
impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::Edge> {
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::Edge> | insert | C11 C12 C16 C19
//@  heap mut
    requires self.node.own(old(h)), self.node.height > 0, self.idx <= self.node.nv(old(h)).keys.len(),
        edge.height == self.node.height - 1, old(h).dom().contains(edge.node.ptr.a), edge.node.ptr.a != self.node.node.a, old(h).n(edge.node.ptr.a).parent != self.node.node.a,
        old(h).linked(self.node.node.a),
        self.node.nv(old(h)).keys.len() == 11 ==> old(spare).internals@.len() > 0 && old(h).fresh(old(spare).internals@.last().p.a, false)
            && old(spare).internals@.last().p.a != self.node.node.a && old(spare).internals@.last().p.a != edge.node.ptr.a && old(h).n(edge.node.ptr.a).parent != old(spare).internals@.last().p.a,
    ensures final(h).wf(), final(h).dom() == old(h).dom(), final(spare).leaf == old(spare).leaf,
        ({
            let p = self.node.node.a; let o = self.node.nv(old(h)); let i = self.idx as int; let e = edge.node.ptr.a;
            let ks = o.keys.insert(i, key); let vs = o.vals.insert(i, val); let es = o.edges.insert(i + 1, e);
            if o.keys.len() < 11 {
                &&& r is Fit && final(spare).internals@ == old(spare).internals@
                &&& final(h).n(p) == NodeV { keys: ks, vals: vs, edges: es, ..o }
                &&& final(h).linked(p) && final(h).besides(old(h), set![p], e) && final(h).n(e) == NodeV { parent: p, pidx: i + 1, ..old(h).n(e) }
            } else {
                let w = old(spare).internals@.last().p.a; let m = mid(i);
                &&& r is Split && r->Split_0 == self.node && r->Split_1 == ks[m] && r->Split_2 == vs[m]
                &&& r->Split_3.node.ptr.a == w && r->Split_3.height == self.node.height && final(spare).internals@ == old(spare).internals@.drop_last()
                &&& final(h).n(p) == NodeV { keys: ks.take(m), vals: vs.take(m), edges: es.take(m + 1), ..o }
                &&& final(h).n(w) == NodeV { ok: true, keys: ks.skip(m + 1), vals: vs.skip(m + 1), edges: es.skip(m + 1), ..old(h).n(w) }
                &&& final(h).linked(p) && final(h).linked(w) && final(h).besides(old(h), set![p, w], e) && final(h).same_core(old(h), e)
            }
        }),
//@after /let \(mut left, k, v, mut right\) = .*?;/
    let ghost h1 = *h;
    proof { let p = self.node.node.a; let w = old(spare).internals@.last().p.a; let e = edge.node.ptr.a; let es = h1.n(w).edges; let o = self.node.nv(old(h));
        assert forall|j: int| 0 <= j < es.len() implies #[trigger] es[j] != e by { assert(es[j] == o.edges[j + 7]); assert(old(h).child_ok(p, j + 7, o.edges[j + 7])); }
        assert(!within(es, 0, es.len() as int, e)); assert(h1.n(e) == old(h).n(e)); }
//@at /InsertResult::Split/
    proof {
        let p = self.node.node.a; let o = self.node.nv(old(h)); let i = self.idx as int; let w = old(spare).internals@.last().p.a; let m = mid(i); let e = edge.node.ptr.a;
        let ks = o.keys.insert(i, key); let vs = o.vals.insert(i, val); let es = o.edges.insert(i + 1, e);
        assert(h.n(p) =~~= NodeV { keys: ks.take(m), vals: vs.take(m), edges: es.take(m + 1), ..o });
        assert(h.n(w) =~~= NodeV { ok: true, keys: ks.skip(m + 1), vals: vs.skip(m + 1), edges: es.skip(m + 1), ..old(h).n(w) });
        let a = if i <= 6 { p } else { w }; let b = if i <= 6 { w } else { p };
        let ea = h.n(a).edges;
        assert(old(h).n(w).parent == 0);
        assert forall|j: int| 0 <= j < ea.len() implies #[trigger] ea[j] != b by {
            let e1 = h1.n(a).edges; let x = if i <= 6 { i } else { i - 7 };
            if j <= x { assert(ea[j] == e1[j]); assert(h1.child_ok(a, j, e1[j])); } else if j > x + 1 { assert(ea[j] == e1[j - 1]); assert(h1.child_ok(a, j - 1, e1[j - 1])); }
            if b == p { } }
        assert(!within(ea, 0, ea.len() as int, b));
        assert(h.n(b) == h1.n(b));
        assert forall|j: int| 0 <= j < h.n(b).edges.len() implies h.child_ok(b, j, #[trigger] h.n(b).edges[j]) by { assert(h1.child_ok(b, j, h1.n(b).edges[j])); }
        let ps = set![p, w];
        assert forall|q: usize| old(h).dom().contains(q) && q != e && !ps.contains(q) implies #[trigger] h.n(q) == (NodeV { parent: h.n(q).parent, pidx: h.n(q).pidx, ..old(h).n(q) })
            && (!ps.contains(old(h).n(q).parent) ==> h.n(q) == old(h).n(q)) by { assert(q != p && q != w && q != e); assert(h1.n(q) == (NodeV { parent: h1.n(q).parent, pidx: h1.n(q).pidx, ..old(h).n(q) })); }
    }
//@end
}

impl<'a, K, V, NodeType> Handle<NodeRef<marker::Mut<'a>, K, V, NodeType>, marker::KV> {
//@fn src/btree/node.rs | impl<'a, K: 'a, V: 'a, NodeType> Handle<NodeRef<marker::Mut<'a>, K, V, NodeType>, marker::KV> | into_kv_mut | C11 C12 C13 C19
//@  heap ref
//@  sig /\(&'a mut K, &'a mut V\)/ => (RP<K>, RP<V>)
//@  rw /\.as_mut\(\)\s*\.unwrap\(\)/ => 
    requires self.node.kind(h), h.kvok(self.node.node.a), self.idx < self.node.nv(h).keys.len(),
    ensures r.0.a() == self.node.node.a, r.0.off() == self.idx, r.1.a() == self.node.node.a, r.1.off() == self.idx,
//@end
//@fn src/btree/node.rs | impl<'a, K, V, NodeType> Handle<NodeRef<marker::Mut<'a>, K, V, NodeType>, marker::KV> | kv_mut | C11 C12 C19
//@  heap ref
//@  sig /\(&mut K, &mut V\)/ => (RP<K>, RP<V>)
//@  rw /\.as_mut\(\)\s*\.unwrap\(\)/ => 
    requires old(self).node.kind(h), h.kvok(old(self).node.node.a), old(self).idx < old(self).node.nv(h).keys.len(),
    ensures r.0.a() == old(self).node.node.a, r.0.off() == old(self).idx, r.1.a() == old(self).node.node.a, r.1.off() == old(self).idx, *final(self) == *old(self),
//@end
}
impl<Node: Copy, Type> Handle<Node, Type> {
//@fn src/btree/node.rs | impl<Node: Copy, Type> Clone for Handle<Node, Type> | clone | C11 C13 C14
//@  as vx_clone
    ensures r == *self,
//@end
}
impl<Node, Type> Handle<Node, Type> {
//@fn src/btree/node.rs | impl<Node, Type> Handle<Node, Type> | into_node | C11 C12
    ensures r == self.node,
//@end
}
impl<BorrowType, K, V, NodeType, HandleType> Handle<NodeRef<BorrowType, K, V, NodeType>, HandleType> {
//@fn src/btree/node.rs | impl<BorrowType, K, V, NodeType, HandleType> Handle<NodeRef<BorrowType, K, V, NodeType>, HandleType> | reborrow | C11 C12 C13
    ensures r.node.is(&self.node), r.idx == self.idx,
//@end
//@fn src/btree/node.rs | impl<BorrowType, K, V, NodeType, HandleType> PartialEq for Handle<NodeRef<BorrowType, K, V, NodeType>, HandleType> | eq | C13 C14
//@  rw /self\.node\.node == other\.node\.node/ => vx_ptr_eq(self.node.node, other.node.node)
    ensures r == (self.node.node == other.node.node && self.idx == other.idx),
//@end
}
pub fn vx_ptr_eq(p: P, q: P) -> (r: bool) ensures r == (p == q) { p.a == q.a }
impl<'a, K, V, NodeType, HandleType> Handle<NodeRef<marker::Mut<'a>, K, V, NodeType>, HandleType> {
//@fn src/btree/node.rs | impl<'a, K, V, NodeType, HandleType> Handle<NodeRef<marker::Mut<'a>, K, V, NodeType>, HandleType> | reborrow_mut | C11 C12 C15
    ensures r.node.is(&old(self).node), r.idx == old(self).idx, *final(self) == *old(self),
//@end
}
/// two neighbouring children l = p.edges[i], r = p.edges[i + 1] of an inner node
pub open spec fn pair<K, V>(h: &Heap<K, V>, p: usize, i: int, height: int) -> bool {
    let n = h.n(p);
    &&& h.wf() && h.dom().contains(p) && n.ok && !n.leaf && height > 0 && 0 <= i < n.keys.len() && h.linked(p)
    &&& h.n(n.edges[i]).ok && h.n(n.edges[i]).leaf == (height == 1)
    &&& h.n(n.edges[i + 1]).ok && h.n(n.edges[i + 1]).leaf == (height == 1)
    &&& h.linked(n.edges[i]) && h.linked(n.edges[i + 1])
    &&& n.parent != n.edges[i] && n.parent != n.edges[i + 1]
}
/// outside p and its two children only links to them changed
pub open spec fn moved<K, V>(h: &Heap<K, V>, o: &Heap<K, V>, p: usize, l: usize, r: usize, rdead: bool) -> bool {
    &&& h.wf() && h.dom() == (if rdead { o.dom().remove(r) } else { o.dom() })
    &&& h.linked(p) && h.linked(l) && (!rdead ==> h.linked(r))
    &&& h.around(o, set![p, l, r])
}
/// what merging the children at x and x + 1 of p does to the nodes
pub open spec fn merged<K, V>(h: &Heap<K, V>, o: &Heap<K, V>, p: usize, x: int) -> bool {
    let op = o.n(p); let l = op.edges[x]; let r = op.edges[x + 1]; let ol = o.n(l); let or = o.n(r); let es = op.edges.remove(x + 1); let le = ol.edges + or.edges;
    &&& h.wf() && h.dom() == o.dom()
    &&& h.n(p) == NodeV { keys: op.keys.remove(x), vals: op.vals.remove(x), edges: es, ..op }
    &&& h.n(l) == NodeV { keys: ol.keys.push(op.keys[x]) + or.keys, vals: ol.vals.push(op.vals[x]) + or.vals, edges: le, ..ol }
    &&& forall|i: int| x < i < es.len() ==> h.n(#[trigger] es[i]) == (NodeV { parent: p, pidx: i, ..o.n(es[i]) })
    &&& forall|i: int| ol.edges.len() <= i < le.len() ==> h.n(#[trigger] le[i]) == (NodeV { parent: l, pidx: i, ..o.n(le[i]) })
    &&& forall|q: usize| q != p && q != l && q != r && !within(es, x + 1, es.len() as int, q) && !within(le, ol.edges.len() as int, le.len() as int, q) ==> #[trigger] h.n(q) == o.n(q)
}
pub proof fn lemma_merged<K, V>(f: &Heap<K, V>, h: &Heap<K, V>, o: &Heap<K, V>, p: usize, x: int, height: int)
    requires pair(o, p, x, height), merged(h, o, p, x), f.shrunk(h, o.n(p).edges[x + 1]),
    ensures moved(f, o, p, o.n(p).edges[x], o.n(p).edges[x + 1], true),
        f.n(p) == h.n(p), f.n(o.n(p).edges[x]) == h.n(o.n(p).edges[x]),
{
    let op = o.n(p); let l = op.edges[x]; let r = op.edges[x + 1]; let ol = o.n(l); let or = o.n(r); let es = op.edges.remove(x + 1); let le = ol.edges + or.edges; let n = ol.edges.len() as int;
    assert(o.child_ok(p, x, l)); assert(o.child_ok(p, x + 1, r));
    assert forall|i: int| 0 <= i < es.len() implies f.child_ok(p, i, #[trigger] es[i]) by {
        let j = if i <= x { i } else { i + 1 }; assert(es[i] == op.edges[j]); assert(o.child_ok(p, j, es[i]));
        if i < x { assert(!within(es, x + 1, es.len() as int, es[i])) by { if within(es, x + 1, es.len() as int, es[i]) { let k = choose|k: int| x + 1 <= k < es.len() && es[k] == es[i]; assert(o.child_ok(p, k + 1, op.edges[k + 1])); } }
            assert(!within(le, n, le.len() as int, es[i])) by { if within(le, n, le.len() as int, es[i]) { let k = choose|k: int| n <= k < le.len() && le[k] == es[i]; assert(o.child_ok(r, k - n, or.edges[k - n])); } } }
        if i == x { }
    }
    assert forall|i: int| 0 <= i < le.len() implies f.child_ok(l, i, #[trigger] le[i]) by {
        let c = le[i];
        if i < n { assert(c == ol.edges[i]); assert(o.child_ok(l, i, c));
            assert(!within(es, x + 1, es.len() as int, c)) by { if within(es, x + 1, es.len() as int, c) { let k = choose|k: int| x + 1 <= k < es.len() && es[k] == c; assert(o.child_ok(p, k + 1, op.edges[k + 1])); } }
            assert(!within(le, n, le.len() as int, c)) by { if within(le, n, le.len() as int, c) { let k = choose|k: int| n <= k < le.len() && le[k] == c; assert(o.child_ok(r, k - n, or.edges[k - n])); } }
            assert(c != p && c != r);
        } else { assert(c == or.edges[i - n]); assert(o.child_ok(r, i - n, c)); assert(c != l && c != r); }
    }
    let ps = set![p, l, r];
    assert forall|q: usize| o.dom().contains(q) && !ps.contains(q) implies #[trigger] f.n(q) == (NodeV { parent: f.n(q).parent, pidx: f.n(q).pidx, ..o.n(q) })
        && (!ps.contains(o.n(q).parent) ==> f.n(q) == o.n(q)) by {
        assert(q != p && q != l && q != r);
        if within(es, x + 1, es.len() as int, q) { let k = choose|k: int| x + 1 <= k < es.len() && es[k] == q; assert(f.child_ok(p, k, es[k])); }
        else if within(le, n, le.len() as int, q) { let k = choose|k: int| n <= k < le.len() && le[k] == q; assert(f.child_ok(l, k, le[k])); }
    }
    assert(f.dom() =~= o.dom().remove(r));
}
impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> {
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> | can_merge | C11 C12
//@  heap ref
    requires pair(h, self.node.node.a, self.idx as int, self.node.height as int),
    ensures r == (h.n(self.node.nv(h).edges[self.idx as int]).keys.len() + h.n(self.node.nv(h).edges[self.idx + 1]).keys.len() + 1 <= 11),
//@body
    proof { let n = self.node.nv(h); assert(h.child_ok(self.node.node.a, self.idx as int, n.edges[self.idx as int])); assert(h.child_ok(self.node.node.a, self.idx + 1, n.edges[self.idx + 1])); }
//@end
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> | merge | C11 C12 C15 C17
//@  heap mut
//@  rw /\.cast_unchecked\(\)/ => .cast_unchecked::<marker::Internal>()
    requires pair(old(h), self.node.node.a, self.idx as int, self.node.height as int),
        old(h).n(self.node.nv(old(h)).edges[self.idx as int]).keys.len() + old(h).n(self.node.nv(old(h)).edges[self.idx + 1]).keys.len() + 1 <= 11,
    ensures r.node == self.node, r.idx == self.idx,
        ({
            let p = self.node.node.a; let i = self.idx as int; let o = old(h).n(p); let l = o.edges[i]; let rr = o.edges[i + 1]; let ol = old(h).n(l); let or = old(h).n(rr);
            &&& moved(final(h), old(h), p, l, rr, true)
            &&& final(h).n(p) == NodeV { keys: o.keys.remove(i), vals: o.vals.remove(i), edges: o.edges.remove(i + 1), ..o }
            &&& final(h).n(l) == NodeV { keys: ol.keys.push(o.keys[i]) + or.keys, vals: ol.vals.push(o.vals[i]) + or.vals, edges: ol.edges + or.edges, ..ol }
        }),
//@body
    let ghost p = self.node.node.a; let ghost x = self.idx as int; let ghost o = old(h).n(p); let ghost l = o.edges[x]; let ghost r = o.edges[x + 1]; let ghost ol = old(h).n(l); let ghost or = old(h).n(r);
    proof { assert(old(h).child_ok(p, x, l)); assert(old(h).child_ok(p, x + 1, r)); assert(l != r && l != p && r != p); }
//@at /for i in vx_self/
    let ghost h1 = *h; let ghost es = o.edges.remove(x + 1); let ghost n1 = o.keys.len() as int;
    proof {
        assert forall|i: int| 0 <= i < es.len() implies #[trigger] es[i] != p && es[i] != r && old(h).dom().contains(es[i]) && (i != x ==> es[i] != l) && h1.es@[p][i] is Some && h1.n(p).edges[i] == es[i] by { let j = if i <= x { i } else { i + 1 }; assert(es[i] == o.edges[j]); assert(old(h).child_ok(p, j, o.edges[j])); }
        assert forall|i: int, j: int| 0 <= i < j < es.len() implies #[trigger] es[i] != #[trigger] es[j] by { let a = if i <= x { i } else { i + 1 }; let b = if j <= x { j } else { j + 1 }; assert(old(h).child_ok(p, a, o.edges[a])); assert(old(h).child_ok(p, b, o.edges[b])); }
        assert(distinct(es, 0, es.len() as int));
        assert forall|q: usize| q != p && q != l implies #[trigger] h1.n(q) == old(h).n(q) by { }
    }
//@loop 0
    invariant
        vx_end0 == n1, es.len() == n1, n1 <= 11, vx_self.node.node.a == p, vx_self.node.height == self.node.height, vx_self.node.height > 0, vx_self.node.kind(h), 
        h.relink(&h1, p, es, x + 1, i as int), h.n(p) == h1.n(p),
        h.es@ == h1.es@,
        h.ks@ == h1.ks@, h.vs@ == h1.vs@,
        h.n(l) == h1.n(l), x + 1 <= i, vx_self.idx == x,
        h.n(r) == h1.n(r),
        forall|j: int| x + 1 <= j < n1 ==> #[trigger] es[j] != l,
        forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] != p && es[i] != r && h1.dom().contains(es[i]) && (i != x ==> es[i] != l) && h1.es@[p][i] is Some && h1.n(p).edges[i] == es[i],
        h1.n(p).keys.len() == n1, distinct(es, 0, es.len() as int), 0 <= x < n1,
//@at /Handle::new_edge\(vx_self\.node\.reborrow/
    proof {
        assert(0 <= i < es.len());
        assert(es[i as int] != p && es[i as int] != r);
        assert(es[i as int] != l);
        assert(h1.dom().contains(es[i as int]));
        assert(h1.n(p).edges[i as int] == es[i as int]);
        assert(h.es@[p][i as int] is Some);
    }
//@at /\{ let vx_n = vx_self\.node\.as_leaf_mut\(\)/
    let ghost h2 = *h;
    proof { assert(h2.n(p).keys.len() == n1); }
//@at /if vx_self\.node\.height > 1/
    let ghost h3 = *h;
    proof {
        assert(h3.n(p) =~~= NodeV { keys: o.keys.remove(x), vals: o.vals.remove(x), edges: o.edges.remove(x + 1), ..o });
        assert(ol.keys.len() == left_len && or.keys.len() == right_len);
        assert(h1.hd@[l] == old(h).hd@[l]);
        assert(old(h).hd@[l].len == left_len);
        assert(h1.n(l).keys.len() == left_len);
        assert(h2.n(l).keys.len() == left_len);
        assert(h2.hd@[l].len == left_len);
        assert(h3.hd@[l].len == left_len + right_len + 1);
        assert(o.keys[x] == old(h).ks@[p][x]->Some_0);
        assert forall|j: int| 0 <= j < ol.keys.len() + 1 + or.keys.len() implies #[trigger] h3.n(l).keys[j] == (ol.keys.push(o.keys[x]) + or.keys)[j] by {
            let n = ol.keys.len() as int;
            if j < n { assert(h3.ks@[l][j] == old(h).ks@[l][j]); } else if j == n { assert(h3.ks@[l][j] == old(h).ks@[p][x]); } else { assert(h3.ks@[l][j] == old(h).ks@[r][j - n - 1]); }
        }
        assert(h3.n(l).keys =~= ol.keys.push(o.keys[x]) + or.keys);
        assert forall|j: int| 0 <= j < ol.vals.len() + 1 + or.vals.len() implies #[trigger] h3.n(l).vals[j] == (ol.vals.push(o.vals[x]) + or.vals)[j] by {
            let n = ol.vals.len() as int;
            if j < n { assert(h3.vs@[l][j] == old(h).vs@[l][j]); } else if j == n { assert(h3.vs@[l][j] == old(h).vs@[p][x]); } else { assert(h3.vs@[l][j] == old(h).vs@[r][j - n - 1]); }
        }
        assert(h3.n(l).vals =~= ol.vals.push(o.vals[x]) + or.vals);
        if self.node.height == 1 { assert(ol.edges + or.edges =~= Seq::<usize>::empty()); assert(h3.n(l) =~~= NodeV { keys: ol.keys.push(o.keys[x]) + or.keys, vals: ol.vals.push(o.vals[x]) + or.vals, edges: ol.edges + or.edges, ..ol }); }
        assert(h3.n(r) == or);
    }
//@at /for i in left_len/
    let ghost h4 = *h; let ghost le = ol.edges + or.edges;
    proof {
        assert(h4.n(l) =~~= NodeV { keys: ol.keys.push(o.keys[x]) + or.keys, vals: ol.vals.push(o.vals[x]) + or.vals, edges: le, ..ol });
        assert forall|i: int| 0 <= i < le.len() implies #[trigger] le[i] != p && le[i] != r && le[i] != l && old(h).dom().contains(le[i]) && !within(es, 0, es.len() as int, le[i]) by {
            if i < ol.edges.len() { assert(le[i] == ol.edges[i]); assert(old(h).child_ok(l, i, ol.edges[i])); } else { assert(le[i] == or.edges[i - ol.edges.len()]); assert(old(h).child_ok(r, i - ol.edges.len(), or.edges[i - ol.edges.len()])); }
            assert forall|j: int| 0 <= j < es.len() implies #[trigger] es[j] != le[i] by { let a = if j <= x { j } else { j + 1 }; assert(es[j] == o.edges[a]); assert(old(h).child_ok(p, a, o.edges[a])); }
        }
        assert forall|i: int, j: int| 0 <= i < j < le.len() implies #[trigger] le[i] != #[trigger] le[j] by {
            let n = ol.edges.len() as int;
            if i < n { assert(old(h).child_ok(l, i, ol.edges[i])); } else { assert(old(h).child_ok(r, i - n, or.edges[i - n])); }
            if j < n { assert(old(h).child_ok(l, j, ol.edges[j])); } else { assert(old(h).child_ok(r, j - n, or.edges[j - n])); }
        }
    }
//@loop 1
    invariant
        le.len() == left_len + right_len + 2, left_len + right_len + 1 <= 11, left_len + 1 <= i, left_node.node.a == l, left_node.height > 0, left_node.kind(h),
        h.relink(&h4, l, le, left_len + 1, i as int), h4.n(l).edges == le, h.n(l) == h4.n(l), h.n(p) == h4.n(p), h4.n(l).ok, h4.n(l).keys.len() == left_len + right_len + 1, h4.dom().contains(l), !h4.n(l).leaf,
        forall|i: int| 0 <= i < le.len() ==> #[trigger] le[i] != p && le[i] != r && le[i] != l && h4.dom().contains(le[i]), distinct(le, 0, le.len() as int), h.n(r) == h4.n(r),
//@at /vx_free_internal/
    let ghost h5 = *h;
    proof {
        assert(h5.dom() == old(h).dom());
        assert forall|i: int| x < i < es.len() implies h5.n(#[trigger] es[i]) == (NodeV { parent: p, pidx: i, ..old(h).n(es[i]) }) by { assert(!within(le, left_len + 1, le.len() as int, es[i])); assert(h4.n(es[i]) == h2.n(es[i])); }
        assert forall|i: int| ol.edges.len() <= i < le.len() implies h5.n(#[trigger] le[i]) == (NodeV { parent: l, pidx: i, ..old(h).n(le[i]) }) by { assert(!within(es, 0, es.len() as int, le[i])); assert(!within(es, x + 1, es.len() as int, le[i])); assert(h2.n(le[i]) == h1.n(le[i])); assert(h1.n(le[i]) == old(h).n(le[i])); assert(h4.n(le[i]) == h2.n(le[i])); }
        assert forall|q: usize| q != p && q != l && q != r && !within(es, x + 1, es.len() as int, q) && !within(le, ol.edges.len() as int, le.len() as int, q) implies #[trigger] h5.n(q) == old(h).n(q) by { assert(h2.n(q) == h1.n(q)); assert(h3.n(q) == h2.n(q)); assert(h4.n(q) == h3.n(q)); }
        assert(merged(&h5, old(h), p, x));
    }
//@after /vx_free_internal.*?;/
    proof { lemma_merged(h, &h5, old(h), p, x, vx_self.node.height as int); }
//@at /vx_free_leaf/
    proof {
        assert(h3.dom() == old(h).dom());
        assert forall|i: int| x < i < es.len() implies h3.n(#[trigger] es[i]) == (NodeV { parent: p, pidx: i, ..old(h).n(es[i]) }) by { }
        assert forall|q: usize| q != p && q != l && q != r && !within(es, x + 1, es.len() as int, q) implies #[trigger] h3.n(q) == old(h).n(q) by { assert(h2.n(q) == h1.n(q)); assert(h3.n(q) == h2.n(q)); }
        assert(merged(&h3, old(h), p, x));
    }
//@after /vx_free_leaf.*?;/
    proof { lemma_merged(h, &h3, old(h), p, x, vx_self.node.height as int); }
//@end
}
/// what moving the child e from `from` to `to`, children of p next to each other, comes to
pub proof fn lemma_stolen<K, V>(f: &Heap<K, V>, h2: &Heap<K, V>, h1: &Heap<K, V>, o: &Heap<K, V>, p: usize, x: int, height: int, left: bool, e: usize)
    requires pair(o, p, x, height),
        ({
            let op = o.n(p); let l = op.edges[x]; let r = op.edges[x + 1]; let (a, b) = if left { (l, r) } else { (r, l) }; let oa = o.n(a);
            &&& h1.wf() && h2.wf() && f.wf() && h1.dom() == o.dom() && h2.dom() == o.dom() && f.dom() == o.dom()
            &&& (forall|q: usize| q != p ==> #[trigger] h2.n(q) == h1.n(q)) && h2.n(p).edges == op.edges && h2.n(p).parent == op.parent && h1.n(b) == o.n(b)
            &&& h1.n(a).parent == oa.parent && h1.n(a).pidx == oa.pidx && f.n(b).parent == o.n(b).parent && f.n(b).pidx == o.n(b).pidx
            &&& height == 1 ==> (forall|q: usize| q != a ==> #[trigger] h1.n(q) == o.n(q)) && (forall|q: usize| q != b ==> #[trigger] f.n(q) == h2.n(q)) && h1.n(a).edges.len() == 0 && f.n(b).edges.len() == 0
            &&& height > 1 ==> {
                &&& oa.edges.contains(e) && h1.besides(o, set![a], e) && h1.linked(a) && h1.same_core(o, e) && h1.n(e).parent == 0
                &&& f.linked(b) && f.besides(h2, set![b], e) && f.same_core(h2, e) && f.n(e).parent == b
                &&& (forall|i: int| 0 <= i < h1.n(a).edges.len() ==> (#[trigger] h1.n(a).edges[i]) != e)
            }
        }),
    ensures moved(f, o, p, o.n(p).edges[x], o.n(p).edges[x + 1], false), f.n(p) == h2.n(p), f.n(if left { o.n(p).edges[x] } else { o.n(p).edges[x + 1] }) == h1.n(if left { o.n(p).edges[x] } else { o.n(p).edges[x + 1] }),
{
    let op = o.n(p); let l = op.edges[x]; let r = op.edges[x + 1]; let (a, b) = if left { (l, r) } else { (r, l) }; let oa = o.n(a);
    assert(o.child_ok(p, x, l)); assert(o.child_ok(p, x + 1, r));
    let ps = set![p, l, r];
    if height > 1 {
        let k = choose|k: int| 0 <= k < oa.edges.len() && oa.edges[k] == e;
        assert(o.child_ok(a, k, oa.edges[k])); assert(e != p && e != a && e != b && o.n(e).parent == a);
        assert(set![b].contains(b)); assert(set![a].contains(a));
        assert(!set![b].contains(p) && !set![b].contains(a) && !set![a].contains(b) && !set![a].contains(p));
        assert(!set![b].contains(op.parent) && !set![a].contains(op.parent));
        assert(f.n(p) == h2.n(p)); assert(f.n(a) == h2.n(a));
        assert forall|i: int| 0 <= i < f.n(a).edges.len() implies f.child_ok(a, i, #[trigger] f.n(a).edges[i]) by { let c = h1.n(a).edges[i]; assert(h1.child_ok(a, i, c)); assert(c != p) by { if c == p { assert(o.n(p).parent != a); assert(h1.n(p) == o.n(p)); } }
            assert(c != b) by { if c == b { assert(h1.n(b) == o.n(b)); } } assert(h2.n(c) == h1.n(c)); assert(f.n(c) == h2.n(c)); }
        assert forall|i: int| 0 <= i < op.edges.len() implies f.child_ok(p, i, #[trigger] op.edges[i]) by { let c = op.edges[i]; assert(o.child_ok(p, i, c)); if c != l && c != r { assert(!set![a].contains(p)); assert(h1.n(c) == o.n(c)); assert(h2.n(c) == o.n(c)); assert(f.n(c) == h2.n(c)); } }
        assert forall|q: usize| o.dom().contains(q) && !ps.contains(q) implies #[trigger] f.n(q) == (NodeV { parent: f.n(q).parent, pidx: f.n(q).pidx, ..o.n(q) })
            && (!ps.contains(o.n(q).parent) ==> f.n(q) == o.n(q)) by {
            assert(q != p && q != l && q != r);
            assert(!set![a].contains(q) && !set![b].contains(q));
            if q != e { assert(f.n(q) == (NodeV { parent: f.n(q).parent, pidx: f.n(q).pidx, ..h2.n(q) })); assert(h1.n(q) == (NodeV { parent: h1.n(q).parent, pidx: h1.n(q).pidx, ..o.n(q) }));
                if !ps.contains(o.n(q).parent) { assert(!set![a].contains(o.n(q).parent) && !set![b].contains(o.n(q).parent)); assert(h1.n(q) == o.n(q)); assert(f.n(q) == h2.n(q)); } }
        }
    } else {
        assert forall|i: int| 0 <= i < op.edges.len() implies f.child_ok(p, i, #[trigger] op.edges[i]) by { let c = op.edges[i]; assert(o.child_ok(p, i, c)); if c != l && c != r { assert(h1.n(c) == o.n(c)); assert(f.n(c) == h2.n(c)); } }
        assert forall|q: usize| o.dom().contains(q) && !ps.contains(q) implies #[trigger] f.n(q) == (NodeV { parent: f.n(q).parent, pidx: f.n(q).pidx, ..o.n(q) })
            && (!ps.contains(o.n(q).parent) ==> f.n(q) == o.n(q)) by { assert(q != p && q != l && q != r); assert(f.n(q) == h2.n(q)); }
    }
}
impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> {
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> | steal_left | C11 C12
//@  heap mut
    requires pair(old(h), old(self).node.node.a, old(self).idx as int, old(self).node.height as int), old(h).n(old(self).node.nv(old(h)).edges[old(self).idx as int]).keys.len() > 0, old(h).n(old(self).node.nv(old(h)).edges[old(self).idx + 1]).keys.len() < 11,
    ensures *final(self) == *old(self),
        ({
            let p = old(self).node.node.a; let i = old(self).idx as int; let o = old(h).n(p); let l = o.edges[i]; let rr = o.edges[i + 1]; let ol = old(h).n(l); let or = old(h).n(rr);
            &&& moved(final(h), old(h), p, l, rr, false)
            &&& final(h).n(p) == NodeV { keys: o.keys.update(i, ol.keys.last()), vals: o.vals.update(i, ol.vals.last()), ..o }
            &&& final(h).n(l) == NodeV { keys: ol.keys.drop_last(), vals: ol.vals.drop_last(), edges: if ol.leaf { ol.edges } else { ol.edges.drop_last() }, ..ol }
            &&& final(h).n(rr) == NodeV { keys: or.keys.insert(0, o.keys[i]), vals: or.vals.insert(0, o.vals[i]), edges: if or.leaf { or.edges } else { or.edges.insert(0, ol.edges.last()) }, ..or }
        }),
//@body
    let ghost p = self.node.node.a; let ghost x = self.idx as int; let ghost o = old(h).n(p); let ghost l = o.edges[x]; let ghost r = o.edges[x + 1]; let ghost ol = old(h).n(l); let ghost or = old(h).n(r); let ghost e = ol.edges.last();
    proof { assert(old(h).child_ok(p, x, l)); assert(old(h).child_ok(p, x + 1, r)); assert(l != r && l != p && r != p);
        if !ol.leaf { assert(old(h).child_ok(l, ol.edges.len() - 1, e)); assert(e != p && e != l && e != r); } }
//@at /let k = vx_replace/
    let ghost h1 = *h;
    proof { assert(h1.n(p) == o); assert(h1.n(r) == or); }
//@at /match self/
    let ghost h2 = *h;
    proof {
        assert(h2.n(p).keys =~= o.keys.update(x, h2.n(p).keys[x]) && h2.n(p).vals =~= o.vals.update(x, h2.n(p).vals[x])); assert(h2.n(p).edges =~= o.edges); assert(h2.n(p).ok);
        assert(forall|q: usize| q != p ==> #[trigger] h2.n(q) == h1.n(q));
        if !ol.leaf { assert forall|i: int| 0 <= i < or.edges.len() implies h2.child_ok(r, i, #[trigger] or.edges[i]) || 0 == i && e == or.edges[i] by { assert(old(h).child_ok(r, i, or.edges[i])); }
            assert forall|i: int| 0 <= i < ol.edges.len() implies h2.child_ok(l, i, #[trigger] ol.edges[i]) || e == ol.edges[i] by { assert(old(h).child_ok(l, i, ol.edges[i])); } }
    }
//@at /\}\s*\}$/
    proof { lemma_stolen(h, &h2, &h1, old(h), p, x, self.node.height as int, true, e); }
//@end
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> | steal_right | C11 C12
//@  heap mut
    requires pair(old(h), old(self).node.node.a, old(self).idx as int, old(self).node.height as int), old(h).n(old(self).node.nv(old(h)).edges[old(self).idx as int]).keys.len() < 11, old(h).n(old(self).node.nv(old(h)).edges[old(self).idx + 1]).keys.len() > 0,
    ensures *final(self) == *old(self),
        ({
            let p = old(self).node.node.a; let i = old(self).idx as int; let o = old(h).n(p); let l = o.edges[i]; let rr = o.edges[i + 1]; let ol = old(h).n(l); let or = old(h).n(rr);
            &&& moved(final(h), old(h), p, l, rr, false)
            &&& final(h).n(p) == NodeV { keys: o.keys.update(i, or.keys[0]), vals: o.vals.update(i, or.vals[0]), ..o }
            &&& final(h).n(l) == NodeV { keys: ol.keys.push(o.keys[i]), vals: ol.vals.push(o.vals[i]), edges: if ol.leaf { ol.edges } else { ol.edges.push(or.edges[0]) }, ..ol }
            &&& final(h).n(rr) == NodeV { keys: or.keys.remove(0), vals: or.vals.remove(0), edges: if or.leaf { or.edges } else { or.edges.remove(0) }, ..or }
        }),
//@body
    let ghost p = self.node.node.a; let ghost x = self.idx as int; let ghost o = old(h).n(p); let ghost l = o.edges[x]; let ghost r = o.edges[x + 1]; let ghost ol = old(h).n(l); let ghost or = old(h).n(r); let ghost e = or.edges[0];
    proof { assert(old(h).child_ok(p, x, l)); assert(old(h).child_ok(p, x + 1, r)); assert(l != r && l != p && r != p);
        if !ol.leaf { assert(old(h).child_ok(r, 0, e)); assert(e != p && e != l && e != r); } }
//@at /let k = vx_replace/
    let ghost h1 = *h;
    proof { assert(h1.n(p) == o); assert(h1.n(l) == ol); }
//@at /match self/
    let ghost h2 = *h;
    proof {
        assert(h2.n(p).keys =~= o.keys.update(x, h2.n(p).keys[x]) && h2.n(p).vals =~= o.vals.update(x, h2.n(p).vals[x])); assert(h2.n(p).edges =~= o.edges); assert(h2.n(p).ok);
        assert(forall|q: usize| q != p ==> #[trigger] h2.n(q) == h1.n(q));
        if !ol.leaf { assert forall|i: int| 0 <= i < h1.n(r).edges.len() implies (#[trigger] h1.n(r).edges[i]) != e by { assert(h1.n(r).edges[i] == or.edges[i + 1]); assert(old(h).child_ok(r, i + 1, or.edges[i + 1])); } }
    }
//@at /\}\s*\}$/
    proof { lemma_stolen(h, &h2, &h1, old(h), p, x, self.node.height as int, false, e); }
//@end
}

// ---- moving several entries at once ----
/// heap o with its arrays replaced, headers as they were
pub open spec fn arrays<K, V>(h: &Heap<K, V>, o: &Heap<K, V>) -> bool { h.wf() && h.hd@ == o.hd@ && h.dom() == o.dom() }
//@fn src/btree/node.rs |  | move_kv | C12 C15
//@  heap mut
//@  sig /source: \(\*mut K, \*mut V\)/ => source: (RP<K>, RP<V>)
//@  sig /dest: \(\*mut K, \*mut V\)/ => dest: (RP<K>, RP<V>)
    requires old(h).wf(), source.0.a() == source.1.a(), source.0.off() == source.1.off(), dest.0.a() == dest.1.a(), dest.0.off() == dest.1.off(), source.0.a() != dest.0.a(),
        old(h).dom().contains(source.0.a()), old(h).dom().contains(dest.0.a()), 0 <= source.0.off(), source.0.off() + source_offset + count <= 11, 0 <= dest.0.off(), dest.0.off() + dest_offset + count <= 11,
    ensures arrays(final(h), old(h)), final(h).es@ == old(h).es@,
        final(h).ks@ == old(h).ks@.insert(dest.0.a(), over(old(h).ks@[dest.0.a()], dest.0.off() + dest_offset, old(h).ks@[source.0.a()].subrange(source.0.off() + source_offset, source.0.off() + source_offset + count))),
        final(h).vs@ == old(h).vs@.insert(dest.0.a(), over(old(h).vs@[dest.0.a()], dest.0.off() + dest_offset, old(h).vs@[source.0.a()].subrange(source.0.off() + source_offset, source.0.off() + source_offset + count))),
//@end
/// count edges of source from so on, put into dest from d on, whose parent links follow
pub open spec fn edges_moved<K, V>(h: &Heap<K, V>, o: &Heap<K, V>, s: usize, so: int, d: usize, d0: int, n: int) -> bool {
    let es = h.n(d).edges;
    &&& h.wf() && h.dom() == o.dom() && h.ks@ == o.ks@ && h.vs@ == o.vs@ && h.hd@[s] == o.hd@[s] && h.hd@[d] == o.hd@[d]
    &&& h.es@ == o.es@.insert(d, over(o.es@[d], d0, o.es@[s].subrange(so, so + n)))
    &&& forall|i: int| d0 <= i < d0 + n ==> h.n(#[trigger] es[i]) == (NodeV { parent: d, pidx: i, ..o.n(es[i]) })
    &&& forall|q: usize| q != d && !within(es, d0, d0 + n, q) ==> #[trigger] h.n(q) == o.n(q)
}
//@fn src/btree/node.rs |  | move_edges | C12 C15
//@  heap mut
//@  rw /\bsource_ptr\b/ => source_edges
//@  rw /\bdest_ptr\b/ => dest_edges
    requires source.kind(old(h)), source.height > 0, dest.kind(old(h)), dest.height > 0, source.node.a != dest.node.a,
        source_offset + count <= 12, dest_offset + count <= dest.nv(old(h)).keys.len() + 1 <= 12,
        forall|i: int| source_offset <= i < source_offset + count ==> (#[trigger] old(h).es@[source.node.a][i]) is Some
            && old(h).es@[source.node.a][i]->Some_0.ptr.a != source.node.a && old(h).es@[source.node.a][i]->Some_0.ptr.a != dest.node.a && old(h).dom().contains(old(h).es@[source.node.a][i]->Some_0.ptr.a),
        forall|i: int, j: int| source_offset <= i < j < source_offset + count ==> (#[trigger] old(h).es@[source.node.a][i])->Some_0.ptr.a != (#[trigger] old(h).es@[source.node.a][j])->Some_0.ptr.a,
    ensures edges_moved(final(h), old(h), source.node.a, source_offset as int, dest.node.a, dest_offset as int, count as int),
//@at /dest\.correct_childrens/
    let ghost h1 = *h;
    proof {
        let d = dest.node.a; let es = h1.n(d).edges;
        assert forall|i: int| dest_offset <= i < dest_offset + count implies (#[trigger] h1.es@[d][i]) is Some && es[i] == old(h).es@[source.node.a][i - dest_offset + source_offset]->Some_0.ptr.a by { }
        assert forall|i: int| dest_offset <= i < dest_offset + count implies #[trigger] es[i] != d && h1.dom().contains(es[i]) && es[i] != source.node.a by { assert(h1.es@[d][i] is Some); let z = old(h).es@[source.node.a][i - dest_offset + source_offset]; }
        assert forall|i: int, j: int| dest_offset <= i < j < dest_offset + count implies #[trigger] es[i] != #[trigger] es[j] by { assert(h1.es@[d][i] is Some && h1.es@[d][j] is Some); let z = old(h).es@[source.node.a][i - dest_offset + source_offset]; let y = old(h).es@[source.node.a][j - dest_offset + source_offset]; }
        assert forall|q: usize| q != d implies #[trigger] h1.n(q) == old(h).n(q) by { }
    }
//@at /\}$/
    proof { let d = dest.node.a; assert(h.n(d) == h1.n(d)); assert(!within(h1.n(d).edges, dest_offset as int, dest_offset + count, source.node.a)); assert(!within(h1.n(d).edges, dest_offset as int, dest_offset + count, d)); assert(h.hd@[source.node.a] == old(h).hd@[source.node.a]); }
//@end
impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal> {
//@fn src/btree/node.rs | impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal> | into_kv_pointers_mut | C12 C15
//@  heap ref
//@  sig /\(\*mut K, \*mut V\)/ => (RP<K>, RP<V>)
    requires self.kind(h), h.kvok(self.node.a),
    ensures r.0.a() == self.node.a, r.0.off() == 0, r.1.a() == self.node.a, r.1.off() == 0,
//@end
}
/// p keeps its children; those of its children l and r are shared out anew between the two
pub open spec fn rebalanced<K, V>(f: &Heap<K, V>, o: &Heap<K, V>, p: usize, x: int) -> bool {
    let op = o.n(p); let l = op.edges[x]; let r = op.edges[x + 1]; let le = f.n(l).edges; let re = f.n(r).edges;
    &&& f.wf() && f.dom() == o.dom() && f.n(p).edges == op.edges && f.n(p).parent == op.parent && f.n(p).pidx == op.pidx
    &&& f.n(l).parent == p && f.n(l).pidx == x && f.n(r).parent == p && f.n(r).pidx == x + 1
    &&& forall|i: int| 0 <= i < le.len() ==> (o.n(l).edges + o.n(r).edges).contains(#[trigger] le[i]) && f.n(le[i]) == (NodeV { parent: l, pidx: i, ..o.n(le[i]) })
    &&& forall|i: int| 0 <= i < re.len() ==> (o.n(l).edges + o.n(r).edges).contains(#[trigger] re[i]) && f.n(re[i]) == (NodeV { parent: r, pidx: i, ..o.n(re[i]) })
    &&& forall|q: usize| q != p && q != l && q != r && !within(le, 0, le.len() as int, q) && !within(re, 0, re.len() as int, q) ==> #[trigger] f.n(q) == o.n(q)
}
pub proof fn lemma_rebalanced<K, V>(f: &Heap<K, V>, o: &Heap<K, V>, p: usize, x: int, height: int)
    requires pair(o, p, x, height), rebalanced(f, o, p, x),
    ensures moved(f, o, p, o.n(p).edges[x], o.n(p).edges[x + 1], false),
{
    let op = o.n(p); let l = op.edges[x]; let r = op.edges[x + 1]; let le = f.n(l).edges; let re = f.n(r).edges; let all = o.n(l).edges + o.n(r).edges; let n = o.n(l).edges.len() as int;
    assert(o.child_ok(p, x, l)); assert(o.child_ok(p, x + 1, r));
    assert forall|c: usize| all.contains(c) implies (o.n(c).parent == l || o.n(c).parent == r) && o.dom().contains(c) && c != p && c != l && c != r by {
        let k = choose|k: int| 0 <= k < all.len() && all[k] == c;
        if k < n { assert(o.child_ok(l, k, o.n(l).edges[k])); } else { assert(o.child_ok(r, k - n, o.n(r).edges[k - n])); }
    }
    assert forall|i: int| 0 <= i < op.edges.len() implies f.child_ok(p, i, #[trigger] op.edges[i]) by {
        let c = op.edges[i]; assert(o.child_ok(p, i, c));
        assert(!all.contains(c)); if c != l && c != r { assert(!within(le, 0, le.len() as int, c)); assert(!within(re, 0, re.len() as int, c)); assert(f.n(c) == o.n(c)); }
    }
    assert forall|i: int| 0 <= i < le.len() implies f.child_ok(l, i, #[trigger] le[i]) by { assert(all.contains(le[i])); }
    assert forall|i: int| 0 <= i < re.len() implies f.child_ok(r, i, #[trigger] re[i]) by { assert(all.contains(re[i])); }
    let ps = set![p, l, r];
    assert forall|q: usize| o.dom().contains(q) && !ps.contains(q) implies #[trigger] f.n(q) == (NodeV { parent: f.n(q).parent, pidx: f.n(q).pidx, ..o.n(q) })
        && (!ps.contains(o.n(q).parent) ==> f.n(q) == o.n(q)) by { assert(q != p && q != l && q != r); if within(le, 0, le.len() as int, q) { assert(all.contains(q)); } else if within(re, 0, re.len() as int, q) { assert(all.contains(q)); } }
}
/// children of the two are distinct
pub proof fn lemma_pair<K, V>(o: &Heap<K, V>, p: usize, x: int, height: int)
    requires pair(o, p, x, height),
    ensures ({
        let op = o.n(p); let l = op.edges[x]; let r = op.edges[x + 1]; let all = o.n(l).edges + o.n(r).edges;
        &&& l != r && l != p && r != p && o.child_ok(p, x, l) && o.child_ok(p, x + 1, r)
        &&& distinct(all, 0, all.len() as int)
        &&& distinct(o.n(l).edges, 0, o.n(l).edges.len() as int) && distinct(o.n(r).edges, 0, o.n(r).edges.len() as int)
        &&& forall|i: int| 0 <= i < all.len() ==> o.dom().contains(#[trigger] all[i]) && all[i] != p && all[i] != l && all[i] != r
        &&& forall|i: int| 0 <= i < o.n(l).edges.len() ==> o.dom().contains(#[trigger] o.n(l).edges[i]) && o.n(l).edges[i] != p && o.n(l).edges[i] != l && o.n(l).edges[i] != r && o.n(l).edges[i] == all[i]
        &&& forall|i: int| 0 <= i < o.n(r).edges.len() ==> o.dom().contains(#[trigger] o.n(r).edges[i]) && o.n(r).edges[i] != p && o.n(r).edges[i] != l && o.n(r).edges[i] != r && o.n(r).edges[i] == all[i + o.n(l).edges.len()]
    }),
{
    let op = o.n(p); let l = op.edges[x]; let r = op.edges[x + 1]; let all = o.n(l).edges + o.n(r).edges; let n = o.n(l).edges.len() as int;
    assert(o.child_ok(p, x, l)); assert(o.child_ok(p, x + 1, r));
    assert forall|k: int| 0 <= k < all.len() implies o.child_ok(if k < n { l } else { r }, if k < n { k } else { k - n }, #[trigger] all[k]) by { if k < n { assert(o.child_ok(l, k, o.n(l).edges[k])); } else { assert(o.child_ok(r, k - n, o.n(r).edges[k - n])); } }
    assert forall|i: int| 0 <= i < n implies o.child_ok(l, i, #[trigger] o.n(l).edges[i]) && o.n(l).edges[i] == all[i] by { }
    assert forall|i: int| 0 <= i < o.n(r).edges.len() implies o.child_ok(r, i, #[trigger] o.n(r).edges[i]) && o.n(r).edges[i] == all[i + n] by { }
}
impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> {
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> | bulk_steal_left | C15
//@  heap mut
//@  rw /kv\.0 as \*mut K/ => kv.0
//@  rw /kv\.1 as \*mut V/ => kv.1
//@  rw /\bright_edges\b/ => r_edges
    requires pair(old(h), old(self).node.node.a, old(self).idx as int, old(self).node.height as int), count > 0,
        old(h).n(old(self).node.nv(old(h)).edges[old(self).idx as int]).keys.len() >= count, old(h).n(old(self).node.nv(old(h)).edges[old(self).idx + 1]).keys.len() + count <= 11,
    ensures *final(self) == *old(self),
        ({
            let p = old(self).node.node.a; let i = old(self).idx as int; let o = old(h).n(p); let l = o.edges[i]; let rr = o.edges[i + 1]; let ol = old(h).n(l); let or = old(h).n(rr); let m = ol.keys.len() - count;
            &&& moved(final(h), old(h), p, l, rr, false)
            &&& final(h).n(p) == NodeV { keys: o.keys.update(i, ol.keys[m]), vals: o.vals.update(i, ol.vals[m]), ..o }
            &&& final(h).n(l) == NodeV { keys: ol.keys.take(m), vals: ol.vals.take(m), edges: if ol.leaf { ol.edges } else { ol.edges.take(m + 1) }, ..ol }
            &&& final(h).n(rr) == NodeV { keys: ol.keys.skip(m + 1).push(o.keys[i]) + or.keys, vals: ol.vals.skip(m + 1).push(o.vals[i]) + or.vals, edges: if or.leaf { or.edges } else { ol.edges.skip(m + 1) + or.edges }, ..or }
        }),
//@body
    let ghost p = self.node.node.a; let ghost x = self.idx as int; let ghost o = old(h).n(p); let ghost l = o.edges[x]; let ghost r = o.edges[x + 1]; let ghost ol = old(h).n(l); let ghost or = old(h).n(r); let ghost m = ol.keys.len() - count;
    proof { lemma_pair(old(h), p, x, self.node.height as int); }
//@at /\{ let vx_n = left_node/
    let ghost h1 = *h;
    proof {
        assert(h1.hd@ == old(h).hd@ && h1.es@ == old(h).es@);
        assert(forall|j: int| 0 <= j < count - 1 ==> h1.ks@[r][j] == old(h).ks@[l][m + 1 + j]);
        assert(forall|j: int| 0 <= j < count - 1 ==> h1.vs@[r][j] == old(h).vs@[l][m + 1 + j]);
        assert(h1.ks@[r][count - 1] == old(h).ks@[p][x]);
        assert(h1.vs@[r][count - 1] == old(h).vs@[p][x]);
        assert(forall|j: int| count <= j < count + or.keys.len() ==> h1.ks@[r][j] == old(h).ks@[r][j - count]);
        assert(forall|j: int| count <= j < count + or.keys.len() ==> h1.vs@[r][j] == old(h).vs@[r][j - count]);
        assert(h1.ks@[l] == old(h).ks@[l] && h1.vs@[l] == old(h).vs@[l]);
        assert(h1.ks@[p] =~= old(h).ks@[p].update(x, old(h).ks@[l][m]));
        assert(h1.vs@[p] =~= old(h).vs@[p].update(x, old(h).vs@[l][m]));
        assert(forall|q: usize| q != p && q != l && q != r ==> #[trigger] h1.n(q) == old(h).n(q));
        assert(ol.keys.len() == old(h).hd@[l].len && or.keys.len() == old(h).hd@[r].len);
    }
//@at /match \(left_node/
    let ghost h2 = *h;
    proof {
        assert(h2.hd@[l].len == m && h2.hd@[r].len == or.keys.len() + count && h2.hd@[p] == old(h).hd@[p]);
        assert(h2.n(p) =~~= NodeV { keys: o.keys.update(x, ol.keys[m]), vals: o.vals.update(x, ol.vals[m]), ..o });
        assert(forall|q: usize| q != p && q != l && q != r ==> #[trigger] h2.n(q) == old(h).n(q));
        assert(h2.n(l).keys =~= ol.keys.take(m)); assert(h2.n(l).vals =~= ol.vals.take(m));
        assert(h2.n(r).keys =~= ol.keys.skip(m + 1).push(o.keys[x]) + or.keys);
        assert(h2.n(r).vals =~= ol.vals.skip(m + 1).push(o.vals[x]) + or.vals);
    }
//@at /right\.correct_childrens/
    let ghost h3 = *h; let ghost es3 = h3.n(r).edges;
    proof {
        assert forall|i: int| count <= i < count + right_len + 1 implies es3[i] == or.edges[i - count] && (#[trigger] h3.es@[r][i]) is Some by { assert(old(h).es@[r][i - count] is Some); }
        assert forall|i: int| count <= i < count + right_len + 1 implies #[trigger] es3[i] == or.edges[i - count] by { assert(h3.es@[r][i] is Some); }
        assert(forall|q: usize| q != r ==> #[trigger] h3.n(q) == h2.n(q));
    }
//@at /move_edges\(left/
    let ghost h4 = *h;
    proof {
        assert forall|j: int| m + 1 <= j < m + 1 + count implies (#[trigger] h4.es@[l][j]) is Some && h4.es@[l][j]->Some_0.ptr.a == ol.edges[j] by { assert(old(h).es@[l][j] is Some); }
        assert(h4.hd@[r].len == or.keys.len() + count);
        assert(!within(es3, count as int, count + right_len + 1, l) && !within(es3, count as int, count + right_len + 1, r) && !within(es3, count as int, count + right_len + 1, p));
        assert(h4.hd@[r] == h2.hd@[r] && h4.hd@[l] == h2.hd@[l] && h4.hd@[p] == h2.hd@[p]);
    }
//@after /move_edges\(left.*?;/
    proof {
        let re = ol.edges.skip(m + 1) + or.edges; let le = ol.edges.take(m + 1); let n = ol.edges.len() as int; let all = ol.edges + or.edges;
        assert forall|j: int| 0 <= j < re.len() implies (#[trigger] h.es@[r][j]) is Some && h.es@[r][j]->Some_0.ptr.a == re[j] by { if j < count { assert(old(h).es@[l][m + 1 + j] is Some); } else { assert(h3.es@[r][j] is Some); } }
        assert(h.hd@[r].len + 1 == re.len());
        assert(h.n(r).edges =~= re);
        assert(h.n(r).ok) by { assert(h2.n(r).ok || true); assert forall|j: int| 0 <= j < h.hd@[r].len implies (#[trigger] h.ks@[r][j]) is Some by { assert(h1.ks@[r][j] is Some) by { if j >= count { assert(old(h).ks@[r][j - count] is Some); } else if j < count - 1 { assert(old(h).ks@[l][m + 1 + j] is Some); } } }
            assert forall|j: int| 0 <= j < h.hd@[r].len implies (#[trigger] h.vs@[r][j]) is Some by { assert(h1.vs@[r][j] is Some) by { if j >= count { assert(old(h).vs@[r][j - count] is Some); } else if j < count - 1 { assert(old(h).vs@[l][m + 1 + j] is Some); } } } }
        assert forall|j: int| 0 <= j < re.len() implies #[trigger] re[j] == all[m + 1 + j] by { }
        assert forall|j: int| 0 <= j < le.len() implies #[trigger] le[j] == all[j] by { }
        assert(distinct(re, 0, re.len() as int)) by { assert forall|i: int, j: int| 0 <= i < j < re.len() implies #[trigger] re[i] != #[trigger] re[j] by { assert(all[m + 1 + i] != all[m + 1 + j]); } }
        assert forall|i: int| 0 <= i < re.len() implies all.contains(#[trigger] re[i]) && h.n(re[i]) == (NodeV { parent: r, pidx: i, ..old(h).n(re[i]) }) by {
            let c = re[i]; assert(c == all[m + 1 + i]); assert(c != p && c != l && c != r);
            assert(h2.n(c) == old(h).n(c)); assert(h3.n(c) == h2.n(c));
            if i < count { assert(!within(es3, count as int, count + right_len + 1, c)) by { if within(es3, count as int, count + right_len + 1, c) { let k = choose|k: int| count <= k < count + right_len + 1 && es3[k] == c; assert(es3[k] == re[k]); } } assert(h4.n(c) == h3.n(c)); assert(h.n(r).edges[i] == c); }
            else { assert(es3[i] == c); assert(h4.n(c) == (NodeV { parent: r, pidx: i, ..h3.n(c) }));
                assert(!within(h.n(r).edges, 0, count as int, c)) by { if within(h.n(r).edges, 0, count as int, c) { let k = choose|k: int| 0 <= k < count && h.n(r).edges[k] == c; assert(re[k] == re[i]); } } }
        }
        assert forall|q: usize| q != r && !within(re, 0, re.len() as int, q) implies #[trigger] h.n(q) == h2.n(q) by {
            assert(!within(h.n(r).edges, 0, count as int, q)); 
            assert(!within(es3, count as int, count + right_len + 1, q)) by { if within(es3, count as int, count + right_len + 1, q) { let k = choose|k: int| count <= k < count + right_len + 1 && es3[k] == q; assert(es3[k] == re[k]); } }
            assert(h4.n(q) == h3.n(q)); assert(h3.n(q) == h2.n(q)); }
        assert(!within(re, 0, re.len() as int, l) && !within(re, 0, re.len() as int, p)) by { assert forall|k: int| 0 <= k < re.len() implies #[trigger] re[k] != l && re[k] != p by { assert(re[k] == all[m + 1 + k]); } }
        assert(h2.n(l).edges =~= le);
        assert(h.n(l) =~~= NodeV { keys: ol.keys.take(m), vals: ol.vals.take(m), edges: le, ..ol });
        assert(h.n(r).keys =~= h2.n(r).keys && h.n(r).vals =~= h2.n(r).vals);
        assert(h.n(r) =~~= NodeV { keys: ol.keys.skip(m + 1).push(o.keys[x]) + or.keys, vals: ol.vals.skip(m + 1).push(o.vals[x]) + or.vals, edges: re, ..or });
        assert forall|i: int| 0 <= i < le.len() implies all.contains(#[trigger] le[i]) && h.n(le[i]) == (NodeV { parent: l, pidx: i, ..old(h).n(le[i]) }) by {
            let c = le[i]; assert(c == all[i]); assert(old(h).child_ok(l, i, ol.edges[i]));
            assert(!within(re, 0, re.len() as int, c)) by { if within(re, 0, re.len() as int, c) { let k = choose|k: int| 0 <= k < re.len() && re[k] == c; assert(all[i] != all[m + 1 + k]); } }
            assert(h2.n(c) == old(h).n(c)); }
    }
//@at /\}\s*\}$/
    proof {
        if ol.leaf {
            assert(h.n(l) =~~= NodeV { keys: ol.keys.take(m), vals: ol.vals.take(m), edges: ol.edges, ..ol });
            assert(h.n(r) =~~= NodeV { keys: ol.keys.skip(m + 1).push(o.keys[x]) + or.keys, vals: ol.vals.skip(m + 1).push(o.vals[x]) + or.vals, edges: or.edges, ..or });
        }
        assert(rebalanced(h, old(h), p, x));
        lemma_rebalanced(h, old(h), p, x, self.node.height as int);
    }
//@end
}
impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> {
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::KV> | bulk_steal_right | C15
//@  heap mut
//@  rw /kv\.0 as \*mut K/ => kv.0
//@  rw /kv\.1 as \*mut V/ => kv.1
//@  rw /\bright_edges\b/ => r_edges
    requires pair(old(h), old(self).node.node.a, old(self).idx as int, old(self).node.height as int), count > 0,
        old(h).n(old(self).node.nv(old(h)).edges[old(self).idx as int]).keys.len() + count <= 11, old(h).n(old(self).node.nv(old(h)).edges[old(self).idx + 1]).keys.len() >= count,
    ensures *final(self) == *old(self),
        ({
            let p = old(self).node.node.a; let i = old(self).idx as int; let o = old(h).n(p); let l = o.edges[i]; let rr = o.edges[i + 1]; let ol = old(h).n(l); let or = old(h).n(rr); let c = count as int;
            &&& moved(final(h), old(h), p, l, rr, false)
            &&& final(h).n(p) == NodeV { keys: o.keys.update(i, or.keys[c - 1]), vals: o.vals.update(i, or.vals[c - 1]), ..o }
            &&& final(h).n(l) == NodeV { keys: ol.keys.push(o.keys[i]) + or.keys.take(c - 1), vals: ol.vals.push(o.vals[i]) + or.vals.take(c - 1), edges: if ol.leaf { ol.edges } else { ol.edges + or.edges.take(c) }, ..ol }
            &&& final(h).n(rr) == NodeV { keys: or.keys.skip(c), vals: or.vals.skip(c), edges: if or.leaf { or.edges } else { or.edges.skip(c) }, ..or }
        }),
//@body
    let ghost p = self.node.node.a; let ghost x = self.idx as int; let ghost o = old(h).n(p); let ghost l = o.edges[x]; let ghost r = o.edges[x + 1]; let ghost ol = old(h).n(l); let ghost or = old(h).n(r); let ghost n = ol.keys.len() as int; let ghost c = count as int;
    let ghost nk = ol.keys.push(o.keys[x]) + or.keys.take(c - 1); let ghost nv = ol.vals.push(o.vals[x]) + or.vals.take(c - 1);
    proof { lemma_pair(old(h), p, x, self.node.height as int); }
//@at /\{ let vx_n = left_node/
    let ghost h1 = *h;
    proof {
        assert(h1.hd@ == old(h).hd@ && h1.es@ == old(h).es@);
        assert(forall|j: int| 0 <= j < n ==> h1.ks@[l][j] == old(h).ks@[l][j]);
        assert(forall|j: int| 0 <= j < n ==> h1.vs@[l][j] == old(h).vs@[l][j]);
        assert(h1.ks@[l][n] == old(h).ks@[p][x]);
        assert(h1.vs@[l][n] == old(h).vs@[p][x]);
        assert(forall|j: int| n + 1 <= j < n + c ==> h1.ks@[l][j] == old(h).ks@[r][j - n - 1]);
        assert(forall|j: int| n + 1 <= j < n + c ==> h1.vs@[l][j] == old(h).vs@[r][j - n - 1]);
        assert(forall|j: int| 0 <= j < or.keys.len() - c ==> h1.ks@[r][j] == old(h).ks@[r][j + c]);
        assert(forall|j: int| 0 <= j < or.keys.len() - c ==> h1.vs@[r][j] == old(h).vs@[r][j + c]);
        assert(h1.ks@[p] =~= old(h).ks@[p].update(x, old(h).ks@[r][c - 1]));
        assert(h1.vs@[p] =~= old(h).vs@[p].update(x, old(h).vs@[r][c - 1]));
        assert(forall|q: usize| q != p && q != l && q != r ==> #[trigger] h1.n(q) == old(h).n(q));
        assert(ol.keys.len() == old(h).hd@[l].len && or.keys.len() == old(h).hd@[r].len);
    }
//@at /match \(left_node/
    let ghost h2 = *h;
    proof {
        assert(h2.hd@[l].len == n + c && h2.hd@[r].len == or.keys.len() - c && h2.hd@[p] == old(h).hd@[p]);
        assert(h2.n(p) =~~= NodeV { keys: o.keys.update(x, or.keys[c - 1]), vals: o.vals.update(x, or.vals[c - 1]), ..o });
        assert(forall|q: usize| q != p && q != l && q != r ==> #[trigger] h2.n(q) == old(h).n(q));
        assert(nk.len() == n + c && nv.len() == n + c);
        assert(h2.n(l).keys =~= nk); assert(h2.n(l).vals =~= nv);
        assert(h2.n(r).keys =~= or.keys.skip(c)); assert(h2.n(r).vals =~= or.vals.skip(c));
        assert(h2.kvok(l)) by {
            assert forall|j: int| 0 <= j < n + c implies (#[trigger] h2.ks@[l][j]) is Some by { if j < n { assert(old(h).ks@[l][j] is Some); } else if j > n { assert(old(h).ks@[r][j - n - 1] is Some); } }
            assert forall|j: int| 0 <= j < n + c implies (#[trigger] h2.vs@[l][j]) is Some by { if j < n { assert(old(h).vs@[l][j] is Some); } else if j > n { assert(old(h).vs@[r][j - n - 1] is Some); } }
        }
        assert(h2.kvok(r)) by {
            assert forall|j: int| 0 <= j < or.keys.len() - c implies (#[trigger] h2.ks@[r][j]) is Some by { assert(old(h).ks@[r][j + c] is Some); }
            assert forall|j: int| 0 <= j < or.keys.len() - c implies (#[trigger] h2.vs@[r][j]) is Some by { assert(old(h).vs@[r][j + c] is Some); }
        }
    }
//@at /move_edges\(\s*right/
    proof {
        assert forall|j: int| 0 <= j < c implies (#[trigger] h2.es@[r][j]) is Some && h2.es@[r][j]->Some_0.ptr.a == or.edges[j] by { assert(old(h).es@[r][j] is Some); }
    }
//@after /move_edges\(\s*right.*?;/
    let ghost h3 = *h; let ghost le = ol.edges + or.edges.take(c); let ghost re = or.edges.skip(c); let ghost all = ol.edges + or.edges;
    proof {
        assert forall|j: int| 0 <= j < le.len() implies (#[trigger] h3.es@[l][j]) is Some && h3.es@[l][j]->Some_0.ptr.a == le[j] && le[j] == all[j] by { if j <= n { assert(old(h).es@[l][j] is Some); } else { assert(old(h).es@[r][j - n - 1] is Some); } }
        assert(h3.n(l).edges =~= le);
        assert(h3.es@[r] == old(h).es@[r]);
        assert(h3.hd@[l] == h2.hd@[l] && h3.hd@[r] == h2.hd@[r]);
    }
//@at /right\.correct_childrens/
    let ghost h4 = *h; let ghost es4 = h4.n(r).edges;
    proof {
        assert forall|j: int| 0 <= j < re.len() implies (#[trigger] h4.es@[r][j]) is Some && h4.es@[r][j]->Some_0.ptr.a == re[j] && re[j] == all[j + n + 1 + c] by { assert(old(h).es@[r][j + c] is Some); }
        assert(es4 =~= re);
        assert(forall|j: int| 0 <= j < re.len() ==> #[trigger] re[j] == all[j + n + 1 + c]);
        assert(distinct(re, 0, re.len() as int)) by { assert forall|i: int, j: int| 0 <= i < j < re.len() implies #[trigger] re[i] != #[trigger] re[j] by { assert(all[n + 1 + c + i] != all[n + 1 + c + j]); } }
        assert(forall|q: usize| q != r ==> #[trigger] h4.n(q) == h3.n(q));
        assert forall|j: int| 0 <= j < re.len() implies #[trigger] re[j] != r && h4.dom().contains(re[j]) by { assert(re[j] == all[j + n + 1 + c]); }
    }
//@after /right\.correct_childrens.*?;/
    proof {
        assert forall|k: int| 0 <= k < re.len() implies #[trigger] re[k] != l && re[k] != p && re[k] != r by { assert(re[k] == all[k + n + 1 + c]); }
        assert(!within(re, 0, re.len() as int, l) && !within(re, 0, re.len() as int, p) && !within(re, 0, re.len() as int, r));
        assert forall|k: int| 0 <= k < le.len() implies #[trigger] le[k] != l && le[k] != p && le[k] != r by { assert(le[k] == all[k]); }
        assert(!within(h3.n(l).edges, n + 1, n + 1 + c, r) && !within(h3.n(l).edges, n + 1, n + 1 + c, p));
        assert(h3.n(p) == h2.n(p) && h4.n(p) == h3.n(p) && h.n(p) == h4.n(p));
        assert(h.n(l) == h3.n(l));
        assert(h3.n(l) =~~= NodeV { keys: nk, vals: nv, edges: le, ..ol });
        assert(h4.n(r) =~~= NodeV { keys: or.keys.skip(c), vals: or.vals.skip(c), edges: re, ..or });
        assert forall|i: int| 0 <= i < le.len() implies all.contains(#[trigger] le[i]) && h.n(le[i]) == (NodeV { parent: l, pidx: i, ..old(h).n(le[i]) }) by {
            let e = le[i]; assert(e == all[i]);
            assert(!within(re, 0, re.len() as int, e)) by { if within(re, 0, re.len() as int, e) { let k = choose|k: int| 0 <= k < re.len() && re[k] == e; assert(all[i] != all[k + n + 1 + c]); } }
            assert(h.n(e) == h3.n(e));
            if i <= n { assert(old(h).child_ok(l, i, ol.edges[i]));
                assert(!within(h3.n(l).edges, n + 1, n + 1 + c, e)) by { if within(h3.n(l).edges, n + 1, n + 1 + c, e) { let k = choose|k: int| n + 1 <= k < n + 1 + c && h3.n(l).edges[k] == e; assert(all[i] != all[k]); } } }
            else { assert(h3.n(l).edges[i] == e); }
        }
        assert forall|i: int| 0 <= i < re.len() implies all.contains(#[trigger] re[i]) && h.n(re[i]) == (NodeV { parent: r, pidx: i, ..old(h).n(re[i]) }) by {
            let e = re[i]; assert(e == all[i + n + 1 + c]); assert(es4[i] == e);
            assert(!within(h3.n(l).edges, n + 1, n + 1 + c, e)) by { if within(h3.n(l).edges, n + 1, n + 1 + c, e) { let k = choose|k: int| n + 1 <= k < n + 1 + c && h3.n(l).edges[k] == e; assert(all[k] != all[i + n + 1 + c]); } }
            assert(h3.n(e) == h2.n(e));
        }
        assert forall|q: usize| q != p && q != l && q != r && !within(le, 0, le.len() as int, q) && !within(re, 0, re.len() as int, q) implies #[trigger] h.n(q) == old(h).n(q) by {
            assert(h.n(q) == h4.n(q)); assert(h4.n(q) == h3.n(q));
            assert(!within(h3.n(l).edges, n + 1, n + 1 + c, q)); assert(h3.n(q) == h2.n(q));
        }
    }
//@at /\}\s*\}$/
    proof {
        if ol.leaf {
            assert(h.n(l) =~~= NodeV { keys: nk, vals: nv, edges: ol.edges, ..ol });
            assert(h.n(r) =~~= NodeV { keys: or.keys.skip(c), vals: or.vals.skip(c), edges: or.edges, ..or });
        }
        assert(rebalanced(h, old(h), p, x));
        lemma_rebalanced(h, old(h), p, x, self.node.height as int);
    }
//@end
}
impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal>, marker::Edge> {
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
//@fn src/btree/node.rs | impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal>, marker::Edge> | move_suffix | C15
//@  heap mut
    requires old(self).node.own(old(h)), old(self).idx <= old(self).node.nv(old(h)).keys.len(), old(right).own(old(h)), old(right).nv(old(h)).keys.len() == 0, old(right).height == old(self).node.height,
        old(right).node.a != old(self).node.node.a, old(h).linked(old(self).node.node.a), old(h).linked(old(right).node.a), old(h).n(old(right).node.a).parent != old(self).node.node.a, old(h).n(old(self).node.node.a).parent != old(right).node.a,
    ensures *final(self) == *old(self), *final(right) == *old(right),
        ({
            let l = old(self).node.node.a; let r = old(right).node.a; let i = old(self).idx as int; let ol = old(h).n(l); let or = old(h).n(r);
            &&& final(h).dom() == old(h).dom() && final(h).linked(l) && final(h).linked(r) && final(h).around(old(h), set![l, r])
            &&& final(h).n(l) == NodeV { keys: ol.keys.take(i), vals: ol.vals.take(i), edges: if ol.leaf { ol.edges } else { ol.edges.take(i + 1) }, ..ol }
            &&& final(h).n(r) == NodeV { keys: ol.keys.skip(i), vals: ol.vals.skip(i), edges: if ol.leaf { or.edges } else { or.edges + ol.edges.skip(i + 1) }, ..or }
        }),
//@body
    let ghost l = self.node.node.a; let ghost r = right.node.a; let ghost x = self.idx as int; let ghost ol = old(h).n(l); let ghost or = old(h).n(r);
    let ghost le = ol.edges.take(x + 1); let ghost re = or.edges + ol.edges.skip(x + 1); let ghost h2 = *h;
    proof {
        if !ol.leaf {
            assert forall|j: int| 0 <= j < ol.edges.len() implies old(h).child_ok(l, j, #[trigger] ol.edges[j]) && ol.edges[j] != r by { }
            assert(old(h).child_ok(r, 0, or.edges[0]));
        }
    }
//@at /match \(left_node/
    proof {
        h2 = *h;
        assert(ol.keys.len() == old(h).hd@[l].len);
        assert(h2.hd@[l].len == x && h2.hd@[r].len == ol.keys.len() - x);
        assert(h2.n(l) =~~= NodeV { keys: ol.keys.take(x), vals: ol.vals.take(x), edges: if ol.leaf { ol.edges } else { le }, ..ol });
        assert(h2.n(r).keys =~= ol.keys.skip(x)); assert(h2.n(r).vals =~= ol.vals.skip(x));
        assert(h2.kvok(r)) by {
            assert forall|j: int| 0 <= j < ol.keys.len() - x implies (#[trigger] h2.ks@[r][j]) is Some by { assert(old(h).ks@[l][j + x] is Some); }
            assert forall|j: int| 0 <= j < ol.keys.len() - x implies (#[trigger] h2.vs@[r][j]) is Some by { assert(old(h).vs@[l][j + x] is Some); }
        }
        assert(forall|q: usize| q != l && q != r ==> #[trigger] h2.n(q) == old(h).n(q));
        if ol.leaf { assert(h2.n(r) =~~= NodeV { keys: ol.keys.skip(x), vals: ol.vals.skip(x), edges: or.edges, ..or }); }
    }
//@at /move_edges\(left/
    proof {
        assert forall|j: int| x + 1 <= j < ol.keys.len() + 1 implies (#[trigger] h2.es@[l][j]) is Some && h2.es@[l][j]->Some_0.ptr.a == ol.edges[j] by { assert(old(h).es@[l][j] is Some); assert(old(h).child_ok(l, j, ol.edges[j])); }
        assert forall|i: int, j: int| x + 1 <= i < j < ol.keys.len() + 1 implies (#[trigger] h2.es@[l][i])->Some_0.ptr.a != (#[trigger] h2.es@[l][j])->Some_0.ptr.a by { assert(old(h).child_ok(l, i, ol.edges[i])); assert(old(h).child_ok(l, j, ol.edges[j])); assert(h2.es@[l][i] is Some && h2.es@[l][j] is Some); }
    }
//@after /move_edges\(left.*?;/
    proof {
        assert forall|j: int| 0 <= j < re.len() implies (#[trigger] h.es@[r][j]) is Some && h.es@[r][j]->Some_0.ptr.a == re[j] by { if j == 0 { assert(old(h).es@[r][0] is Some); } else { assert(old(h).es@[l][j + x] is Some); } }
        assert(h.n(r).edges =~= re); assert(h.n(r).keys =~= h2.n(r).keys); assert(h.n(r).vals =~= h2.n(r).vals);
        assert(h.n(r) =~~= NodeV { keys: ol.keys.skip(x), vals: ol.vals.skip(x), edges: re, ..or });
        assert forall|j: int| 1 <= j < re.len() implies #[trigger] re[j] != l && re[j] != r && old(h).child_ok(l, j + x, re[j]) by { assert(re[j] == ol.edges[j + x]); assert(old(h).child_ok(l, j + x, ol.edges[j + x])); }
        let n = re.len() as int;
        assert(!within(re, 1, n, l) && !within(re, 1, n, r)); assert(h.n(l) == h2.n(l));
        assert forall|i: int| 0 <= i < le.len() implies h.child_ok(l, i, #[trigger] le[i]) by { assert(le[i] == ol.edges[i]); assert(old(h).child_ok(l, i, ol.edges[i]));
            assert(!within(re, 1, n, le[i])) by { if within(re, 1, n, le[i]) { let k = choose|k: int| 1 <= k < n && re[k] == le[i]; } } }
        assert forall|i: int| 0 <= i < re.len() implies h.child_ok(r, i, #[trigger] re[i]) by { if i == 0 { assert(re[0] == or.edges[0]); assert(!within(re, 1, n, re[0])) by { if within(re, 1, n, re[0]) { let k = choose|k: int| 1 <= k < n && (#[trigger] re[k]) == re[0]; assert(old(h).child_ok(l, k + x, re[k])); } }
              assert(re[0] != l); } }
        let ps = set![l, r];
        assert forall|q: usize| old(h).dom().contains(q) && !ps.contains(q) implies #[trigger] h.n(q) == (NodeV { parent: h.n(q).parent, pidx: h.n(q).pidx, ..old(h).n(q) })
            && (!ps.contains(old(h).n(q).parent) ==> h.n(q) == old(h).n(q)) by { assert(q != l && q != r); if within(re, 1, n, q) { let k = choose|k: int| 1 <= k < n && re[k] == q; assert(h.n(q) == (NodeV { parent: r, pidx: k, ..h2.n(q) })); } }
    }
//@end
}
impl<K, V> NodeRef<marker::Owned, K, V, marker::Leaf> {
//@fn src/btree/node.rs | impl<K, V> NodeRef<marker::Owned, K, V, marker::Leaf> | deallocate_and_ascend | C17
//@  heap mut
    requires self.own(old(h)), self.height == 0, self.nv(old(h)).parent != 0 ==> self.nv(old(h)).pidx >= 0,
    ensures final(h).shrunk(old(h), self.node.a),
        self.nv(old(h)).parent == 0 ==> r is None,
        self.nv(old(h)).parent != 0 ==> r is Some && r->Some_0.node.node.a == self.nv(old(h)).parent && r->Some_0.idx == self.nv(old(h)).pidx && r->Some_0.node.height == 1,
//@end
}
impl<K, V> NodeRef<marker::Owned, K, V, marker::Internal> {
//@fn src/btree/node.rs | impl<K, V> NodeRef<marker::Owned, K, V, marker::Internal> | deallocate_and_ascend | C17
//@  heap mut
    requires self.own(old(h)), 0 < self.height < usize::MAX, self.nv(old(h)).parent != 0 ==> self.nv(old(h)).pidx >= 0,
    ensures final(h).shrunk(old(h), self.node.a),
        self.nv(old(h)).parent == 0 ==> r is None,
        self.nv(old(h)).parent != 0 ==> r is Some && r->Some_0.node.node.a == self.nv(old(h)).parent && r->Some_0.idx == self.nv(old(h)).pidx && r->Some_0.node.height == self.height + 1,
//@end
}
impl<'a, K, V, NodeType> Handle<NodeRef<marker::Immut<'a>, K, V, NodeType>, marker::KV> {
//@fn src/btree/node.rs | impl<'a, K: 'a, V: 'a, NodeType> Handle<NodeRef<marker::Immut<'a>, K, V, NodeType>, marker::KV> | into_kv | C11 C13 C14
//@  heap ref
//@  sig /\(&'a K, &'a V\)/ => (RP<K>, RP<V>)
    requires self.node.own(h), self.idx < self.node.nv(h).keys.len(),
    ensures r.0.a() == self.node.node.a, r.0.off() == self.idx, r.1.a() == self.node.node.a, r.1.off() == self.idx,
//@end
}
}
fn main() {}
