// A map copied: try_clone and clone. src/btree/map.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
use core::borrow::Borrow;
verus! {
//@assume treeinto.rs
//@threads push push_level new_leaf clone_subtree try_clone_subtree
/// y is what TryClone or Clone made of x
pub uninterp spec fn cl<T>(x: T, y: T) -> bool;
/// assumed of the key's TryClone and Clone: the copy has the place in the order that the original has
#[verifier::external_body]
pub proof fn axiom_clone_rank<K>(x: K, y: K)
    requires cl(x, y),
    ensures krank(y) == krank(x),
{ }
/// TryClone::try_clone of an entry's key or value
#[verifier::external_body]
pub fn vx_try_clone<T>(p: RP<T>, m: &Mem<T>) -> (r: Result<T, TryReserveError>)
    requires can(m@, p.a(), p.off(), 1), m@[p.a()][p.off()] is Some,
    ensures r is Ok ==> cl(m@[p.a()][p.off()]->Some_0, r->Ok_0),
{ unimplemented!() }
/// Clone::clone of an entry's key or value
#[verifier::external_body]
pub fn vx_clone<T>(p: RP<T>, m: &Mem<T>) -> (r: T)
    requires can(m@, p.a(), p.off(), 1), m@[p.a()][p.off()] is Some,
    ensures cl(m@[p.a()][p.off()]->Some_0, r),
{ unimplemented!() }
/// the entries s are copies of those from the position on
pub open spec fn copies<K, V>(t: &Tree<K, V>, from: int, s: Seq<(K, V)>) -> bool {
    0 <= from && from + s.len() <= t.s.len() && forall|i: int| 0 <= i < s.len() ==> cl(t.s[from + i].0, (#[trigger] s[i]).0) && cl(t.s[from + i].1, s[i].1)
}
/// a leaf alone
pub open spec fn leaf_t<K, V>(a: usize, s: Seq<(K, V)>) -> PT<K, V> { PT { s: s, ns: Map::empty().insert(a, Nd { kv: s, es: Seq::empty() }), lab: Map::empty().insert(a, Lab { off: 0, end: s.len() as int, ht: 0 }), root: a } }
/// the heap is what it was before
pub open spec fn back<K, V>(o: &Heap<K, V>, h: &Heap<K, V>) -> bool { h.wf() && h.t == o.t && h.dom() == o.dom() && forall|q: usize| o.live(q) ==> #[trigger] h.n(q) == o.n(q) }
pub proof fn lemma_aside_leaf<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, a: usize, s: Seq<(K, V)>)
    requires o.wf(), h.wf(), h.t == o.t, !o.dom().contains(a), h.dom() == o.dom().insert(a), a != 0, a != SHARED, s.len() <= 11,
        ({ let n = h.n(a); n.leaf && n.ok && n.parent == 0 && n.keys.len() == n.vals.len() && zip(n) == s && n.edges.len() == 0 }),
        forall|q: usize| o.live(q) ==> #[trigger] h.n(q) == o.n(q),
    ensures aside(o, h, &leaf_t(a, s)),
{
    let g = leaf_t(a, s); let n = h.n(a);
    assert(n.edges =~= g.es(a));
    assert forall|q: usize| g.in_(q) implies q == a by {}
    assert(nok(&g, a)); assert(up(&g, a)); assert(agn(h, &g, a)); assert(g.kv(a).len() <= 11);
}
/// what is beside stays as it is
pub proof fn lemma_aside_back<K, V>(o: &Heap<K, V>, h1: &Heap<K, V>, h: &Heap<K, V>, g: &PT<K, V>)
    requires aside(o, h1, g), back(h1, h),
    ensures aside(o, h, g),
{
    assert forall|q: usize| g.in_(q) && q != 0 implies #[trigger] agn(h, g, q) by {
        assert(agn(h1, g, q)); assert(h.n(q) == h1.n(q));
        assert forall|i: int| 0 <= i < h.n(q).edges.len() implies h.child_ok(q, i, #[trigger] h.n(q).edges[i]) by { assert(h1.child_ok(q, i, h1.n(q).edges[i])); }
    }
    assert(nok(g, g.root)); assert(agn(h1, g, g.root));
    assert forall|q: usize| o.live(q) implies #[trigger] h.n(q) == o.n(q) by { assert(h1.dom().contains(q) == (o.dom().contains(q) || g.in_(q))); }
}
/// the tree that is copied is as it was
pub proof fn lemma_held_tree<K, V>(o: &Heap<K, V>, h: &Heap<K, V>)
    requires tree(o, &o.t@), h.wf(), h.t == o.t, forall|q: usize| #[trigger] o.dom().contains(q) ==> h.dom().contains(q), forall|q: usize| o.live(q) ==> #[trigger] h.n(q) == o.n(q),
    ensures tree(h, &h.t@),
{
    lemma_held(o, h);
    assert forall|p: usize| h.t@.fp.contains(p) implies #[trigger] occ_ok(h, &h.t@, p) by { assert(occ_ok(o, &o.t@, p)); assert(node_ok(o, &o.t@, p)); assert(h.n(p) == o.n(p)); }
}
/// g2 becomes the last child of the root of g
pub proof fn lemma_aside_graft<K, V>(o: &Heap<K, V>, h1: &Heap<K, V>, h2: &Heap<K, V>, h: &Heap<K, V>, g: &PT<K, V>, g2: &PT<K, V>, k: K, v: V)
    requires o.wf(), aside(o, h1, g), aside(h1, h2, g2), g.ht(g.root) == g2.ht(g2.root) + 1, g.kv(g.root).len() < 11, pushed(h2, h, g.root, g2.root, k, v), h.t == h2.t,
    ensures aside(o, h, &graft_t(g, g.root, g2, (k, v))), p_disjoint(g, g2),
        ({ let gg = graft_t(g, g.root, g2, (k, v)); (forall|q: usize| #[trigger] gg.in_(q) == (g.in_(q) || g2.in_(q))) && gg.kv(g.root) == g.kv(g.root).push((k, v)) && gg.es(g.root) == g.es(g.root).push(g2.root) && gg.ht(g.root) == g.ht(g.root)
            && (forall|q: usize| g.in_(q) && q != g.root ==> #[trigger] gg.kv(q) == g.kv(q)) && (forall|q: usize| g2.in_(q) ==> #[trigger] gg.kv(q) == g2.kv(q)) }),
{
    let u = g.root; let r = g2.root; let gg = graft_t(g, u, g2, (k, v));
    assert forall|q: usize| #[trigger] g.in_(q) implies !g2.in_(q) by { assert(h1.dom().contains(q) == (o.dom().contains(q) || g.in_(q))); }
    assert(nok(g, u)); assert(agn(h1, g, u)); assert(nok(g2, r)); assert(agn(h2, g2, r));
    assert(h1.dom().contains(u)); assert(h2.n(u) == h1.n(u));
    p_graft(g, u, g2, (k, v));
    assert(zip(h.n(u)) =~= zip(h1.n(u)).push((k, v)));
    assert forall|q: usize| gg.in_(q) && q != 0 implies #[trigger] agn(h, &gg, q) by {
        assert(nok(&gg, q));
        if q == u { assert(h.n(u).edges =~= gg.es(u)); assert(gg.lab[u] == graft_lab(g, u, g2, u)); }
        else if g.in_(q) {
            assert(nok(g, q)); assert(agn(h1, g, q)); assert(h1.dom().contains(q)); assert(h2.n(q) == h1.n(q)); assert(h.n(q) == h2.n(q)); assert(gg.lab[q] == graft_lab(g, u, g2, q)); assert(gg.ns[q] == g.ns[q]);
            assert forall|i: int| 0 <= i < h.n(q).edges.len() implies h.child_ok(q, i, #[trigger] h.n(q).edges[i]) by { let c = h1.n(q).edges[i]; assert(h1.child_ok(q, i, c)); assert(kid(g, q, g.es(q)[i])); assert(g.in_(c)); assert(h2.n(c) == h1.n(c)); }
        } else {
            assert(nok(g2, q)); assert(agn(h2, g2, q)); assert(gg.lab[q] == graft_lab(g, u, g2, q)); assert(gg.ns[q] == g2.ns[q]); assert(zip(h.n(q)) =~= zip(h2.n(q)));
            assert forall|i: int| 0 <= i < h.n(q).edges.len() implies h.child_ok(q, i, #[trigger] h.n(q).edges[i]) by { let c = h2.n(q).edges[i]; assert(h2.child_ok(q, i, c)); assert(kid(g2, q, g2.es(q)[i])); }
        }
    }
    assert forall|q: usize| gg.in_(q) implies (#[trigger] gg.kv(q)).len() <= 11 by { if q == u { } else if g.in_(q) { assert(gg.ns[q] == g.ns[q]); assert(g.kv(q).len() <= 11); } else { assert(gg.ns[q] == g2.ns[q]); assert(g2.kv(q).len() <= 11); } }
    assert(gg.lab[u] == graft_lab(g, u, g2, u));
    assert forall|q: usize| #[trigger] h.dom().contains(q) == (o.dom().contains(q) || gg.in_(q)) by { assert(h1.dom().contains(q) == (o.dom().contains(q) || g.in_(q))); assert(h2.dom().contains(q) == (h1.dom().contains(q) || g2.in_(q))); }
    assert forall|q: usize| #[trigger] gg.in_(q) implies !o.dom().contains(q) by { assert(g.in_(q) || g2.in_(q)); if g.in_(q) { } if g2.in_(q) { assert(!h1.dom().contains(q)); assert(h1.dom().contains(q) == (o.dom().contains(q) || g.in_(q))); } }
    assert forall|q: usize| o.live(q) implies #[trigger] h.n(q) == o.n(q) by { assert(h1.n(q) == o.n(q)); assert(h1.dom().contains(q) == (o.dom().contains(q) || g.in_(q))); assert(h2.n(q) == h1.n(q)); assert(q != r) by { if q == r { assert(g2.in_(r)); } } assert(q != u) by { if q == u { assert(g.in_(u)); } } }
}
/// the map m is the tree g, a copy of the tree at and below p
pub open spec fn copied<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: usize, m: &BTreeMap<K, V>, g: &PT<K, V>) -> bool {
    &&& aside(o, h, g) && mapped(m, g) && g.ht(g.root) == o.t@.ht(p) && g.kv(g.root).len() == o.n(p).keys.len()
    &&& g.s.len() == o.t@.end(p) - o.t@.off(p) && copies(&o.t@, o.t@.off(p), g.s) && stocked(g)
}
pub open spec fn mapped<K, V>(m: &BTreeMap<K, V>, g: &PT<K, V>) -> bool { m.root.node.ptr.a == g.root && m.root.height == g.ht(g.root) && m.length == g.s.len() }
pub open spec fn stocked<K, V>(g: &PT<K, V>) -> bool { forall|q: usize| g.in_(q) && q != g.root ==> (#[trigger] g.kv(q)).len() >= MINOCC }
/// a partial copy goes out of scope
fn vx_discard<K, V>(m: BTreeMap<K, V>, Ghost(o): Ghost<Heap<K, V>>, Ghost(g): Ghost<PT<K, V>>, h: &mut Heap<K, V>)
    requires o.wf(), aside(&o, old(h), &g), mapped(&m, &g),
    ensures back(&o, final(h)),
{
    let ghost h0 = *h;
    let mut m = m;
    vx_set_shape(Ghost(g), h);
    let ghost h1 = *h;
    m.drop(h);
    let ghost h2 = *h;
    vx_hold(Ghost(o.t@), h);
    proof {
        assert forall|q: usize| h.dom().contains(q) == o.dom().contains(q) by { assert(h0.dom().contains(q) == (o.dom().contains(q) || g.in_(q))); assert(h1.t@.fp.contains(q) == g.in_(q)); }
        assert(h.dom() =~= o.dom());
        assert forall|q: usize| o.live(q) implies #[trigger] h.n(q) == o.n(q) by { assert(h2.live(q)); assert(h2.n(q) == h1.n(q)); assert(h1.n(q) == h0.n(q)); }
    }
}
/// the first entry of the copy of p
pub proof fn lemma_copy_one<K, V>(t: &Tree<K, V>, from: int, s: Seq<(K, V)>, k: K, v: V)
    requires copies(t, from, s), from + s.len() < t.s.len(), cl(t.s[from + s.len()].0, k), cl(t.s[from + s.len()].1, v),
    ensures copies(t, from, s.push((k, v))),
{ let s2 = s.push((k, v)); assert forall|i: int| 0 <= i < s2.len() implies cl(t.s[from + i].0, (#[trigger] s2[i]).0) && cl(t.s[from + i].1, s2[i].1) by { if i < s.len() { assert(s2[i] == s[i]); } } }
pub proof fn lemma_copy_more<K, V>(t: &Tree<K, V>, from: int, s: Seq<(K, V)>, s2: Seq<(K, V)>)
    requires copies(t, from, s), copies(t, from + s.len(), s2),
    ensures copies(t, from, s + s2),
{ let r = s + s2; assert forall|i: int| 0 <= i < r.len() implies cl(t.s[from + i].0, (#[trigger] r[i]).0) && cl(t.s[from + i].1, r[i].1) by { if i < s.len() { assert(r[i] == s[i]); } else { assert(r[i] == s2[i - s.len()]); assert(from + s.len() + (i - s.len()) == from + i); } } }
/// the copy of a leaf's first entries
pub open spec fn leaf_half<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: usize, g: &PT<K, V>, i: int) -> bool {
    &&& aside(o, h, g) && *g == leaf_t(g.root, g.s) && g.s.len() == i && copies(&o.t@, o.t@.off(p), g.s)
}
/// the copy of the children up to i and what stands between them
pub open spec fn inner_half<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: usize, g: &PT<K, V>, i: int) -> bool {
    &&& aside(o, h, g) && g.ht(g.root) == o.t@.ht(p) && g.kv(g.root).len() == i && stocked(g)
    &&& g.s.len() == o.t@.end(o.n(p).edges[i]) - o.t@.off(p) && copies(&o.t@, o.t@.off(p), g.s)
}
pub proof fn lemma_leaf_start<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: usize, a: usize)
    requires shape(o, &o.t@), o.t@.fp.contains(p), h.grown(o, a, true),
    ensures leaf_half(o, h, p, &leaf_t(a, Seq::<(K, V)>::empty()), 0), h.n(a).ok, h.n(a).leaf, h.n(a).keys.len() == 0,
{
    assert(node_ok(o, &o.t@, p)); assert(zip(h.n(a)) =~= Seq::<(K, V)>::empty());
    assert forall|q: usize| o.live(q) implies #[trigger] h.n(q) == o.n(q) by { assert(q != a); }
    lemma_aside_leaf(o, h, a, Seq::<(K, V)>::empty());
}
/// what is known of the entry i of a node that is being copied
pub proof fn lemma_copy_at<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, p: usize, i: int)
    requires tree(o, &o.t@), h.wf(), h.t == o.t, forall|q: usize| #[trigger] o.dom().contains(q) ==> h.dom().contains(q), forall|q: usize| o.live(q) ==> #[trigger] h.n(q) == o.n(q), o.t@.fp.contains(p), 0 <= i < o.n(p).keys.len(),
    ensures p != SHARED, can(h.ks@, p, i, 1), can(h.vs@, p, i, 1), h.ks@[p][i] == Some(o.n(p).keys[i]), h.vs@[p][i] == Some(o.n(p).vals[i]), h.n(p) == o.n(p), h.dom().contains(p), h.n(p).ok, o.n(p).keys.len() <= 11,
        o.t@.s[kvpos(o, &o.t@, p, i)] == (o.n(p).keys[i], o.n(p).vals[i]), kvpos(o, &o.t@, p, i) < o.t@.end(p) <= o.t@.s.len(), o.t@.ht(p) == 0 ==> kvpos(o, &o.t@, p, i) == o.t@.off(p) + i, o.t@.ht(p) > 0 ==> kvpos(o, &o.t@, p, i) == o.t@.end(o.n(p).edges[i]),
{
    assert(node_ok(o, &o.t@, p)); lemma_kvpos(o, p, i);
    if o.t@.ht(p) > 0 { lemma_down(o, p, i); }
    assert(o.live(p)); assert(h.n(p) == o.n(p));
    lemma_slot(h, p, i);
}
pub proof fn lemma_leaf_more<K, V>(o: &Heap<K, V>, h1: &Heap<K, V>, h: &Heap<K, V>, p: usize, g: &PT<K, V>, i: int, k: K, v: V)
    requires tree(o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) == 0, 0 <= i < o.n(p).keys.len(), o.n(p).keys.len() <= 11, leaf_half(o, h1, p, g, i), h.t == h1.t,
        h.upd(h1, g.root, NodeV { keys: h1.n(g.root).keys.push(k), vals: h1.n(g.root).vals.push(v), ..h1.n(g.root) }), cl(o.n(p).keys[i], k), cl(o.n(p).vals[i], v),
    ensures leaf_half(o, h, p, &leaf_t(g.root, g.s.push((k, v))), i + 1), h.n(g.root).keys.len() == i + 1, h.n(g.root).ok, h.n(g.root).leaf,
{
    let a = g.root; let s2 = g.s.push((k, v));
    assert(agn(h1, g, a)); assert(nok(g, a)); lemma_copy_at(o, o, p, i);
    assert(zip(h.n(a)) =~= s2) by { assert(zip(h1.n(a)) =~= g.s); }
    assert(h1.dom().contains(a));
    assert forall|q: usize| #[trigger] h.dom().contains(q) == o.dom().insert(a).contains(q) by { assert(h1.dom().contains(q) == (o.dom().contains(q) || g.in_(q))); }
    assert(h.dom() =~= o.dom().insert(a));
    assert forall|q: usize| o.live(q) implies #[trigger] h.n(q) == o.n(q) by { assert(h1.n(q) == o.n(q)); }
    lemma_copy_one(&o.t@, o.t@.off(p), g.s, k, v);
    lemma_aside_leaf(o, h, a, s2);
}
pub proof fn lemma_inner_start<K, V>(o: &Heap<K, V>, h1: &Heap<K, V>, h: &Heap<K, V>, p: usize, m: &BTreeMap<K, V>, g: &PT<K, V>, w: usize)
    requires tree(o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) > 0, copied(o, h1, o.n(p).edges[0], m, g), leveled(h1, h, g.root, w), h.t == h1.t,
    ensures inner_half(o, h, p, &grow_t(g, w), 0), grow_t(g, w).root == w, grow_t(g, w).s == g.s,
{
    lemma_down(o, p, 0); let c = o.n(p).edges[0]; let g1 = grow_t(g, w);
    assert(node_ok(o, &o.t@, o.t@.root)); assert(occ_ok(o, &o.t@, c)); assert(c != o.t@.root);
    lemma_aside_grow(o, h1, h, g, w);
    assert(nok(g, g.root)); assert(agn(h1, g, g.root)); assert(h1.dom().contains(g.root)); assert(g.root != w);
    assert forall|q: usize| g1.in_(q) && q != g1.root implies (#[trigger] g1.kv(q)).len() >= MINOCC by { assert(q != w); assert(g1.ns[q] == g.ns[q]); if q != g.root { assert(g.kv(q).len() >= MINOCC); } }
}
pub proof fn lemma_inner_more<K, V>(o: &Heap<K, V>, h1: &Heap<K, V>, h2: &Heap<K, V>, h: &Heap<K, V>, p: usize, m: &BTreeMap<K, V>, g: &PT<K, V>, g2: &PT<K, V>, i: int, k: K, v: V)
    requires tree(o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) > 0, 0 <= i < o.n(p).keys.len(), o.n(p).keys.len() <= 11, inner_half(o, h1, p, g, i), copied(h1, h2, o.n(p).edges[i + 1], m, g2), pushed(h2, h, g.root, g2.root, k, v), h.t == h2.t,
        cl(o.n(p).keys[i], k), cl(o.n(p).vals[i], v),
    ensures inner_half(o, h, p, &graft_t(g, g.root, g2, (k, v)), i + 1), graft_t(g, g.root, g2, (k, v)).s.len() == g.s.len() + 1 + g2.s.len(),
{
    lemma_down(o, p, i); lemma_down(o, p, i + 1); lemma_copy_at(o, o, p, i); let c = o.n(p).edges[i + 1]; let gg = graft_t(g, g.root, g2, (k, v)); let t = o.t@;
    assert(node_ok(o, &t, t.root)); assert(node_ok(o, &t, p)); assert(occ_ok(o, &t, c)); assert(c != t.root); assert(o.live(c)); assert(h1.n(c) == o.n(c));
    assert(sep_ok(o, &t, p, i));
    lemma_aside_graft(o, h1, h2, h, g, g2, k, v);
    lemma_copy_one(&t, t.off(p), g.s, k, v); lemma_copy_more(&t, t.off(p), g.s.push((k, v)), g2.s);
    assert forall|q: usize| gg.in_(q) && q != gg.root implies (#[trigger] gg.kv(q)).len() >= MINOCC by { if g.in_(q) { assert(gg.kv(q) == g.kv(q)); assert(g.kv(q).len() >= MINOCC); } else { assert(g2.in_(q)); assert(gg.kv(q) == g2.kv(q)); if q != g2.root { assert(g2.kv(q).len() >= MINOCC); } } }
}
//@fn src/btree/map.rs | fn try_clone | clone_subtree | C06 C17
//@  as try_clone_subtree
//@  heap mut
//@  probe loop
//@  sig /<'a, K: TryClone, V: TryClone>/ => <'a, K: 'a, V: 'a>
//@  sig /where\s*K: 'a,\s*V: 'a,/ => 
//@  sig /node::NodeRef/ => NodeRef
//@  rw /node::Root/ => Root
//@  rw /clone_subtree\(in_edge\.descend\(\)\)\?/ => match try_clone_subtree(in_edge.descend()) { Ok(vx_x) => vx_x, Err(vx_e) => { proof { lemma_aside_back(&o, &h1, h, &g); } vx_discard(out_tree, Ghost(o), Ghost(g), h); return Err(vx_e); } }
//@  rw /\bclone_subtree\(internal/ => try_clone_subtree(internal
//@  rw /out_tree\.root\.as_mut\(\)/ => out_tree.root.vx_mut()
//@  rw /out_tree\.root\.push_level\(\)\?/ => match out_tree.root.push_level() { Ok(vx_x) => vx_free(vx_x), Err(vx_e) => { vx_discard(out_tree, Ghost(o), Ghost(g), h); return Err(vx_e); } }
//@  rw /(?:\(\*k\)|\bk)\.try_clone\(\)\?/ => match vx_try_clone(k, &h.ks) { Ok(vx_x) => vx_x, Err(vx_e) => { vx_discard(out_tree, Ghost(o), Ghost(g), h); return Err(vx_e); } }
//@  rw /(?:\(\*v\)|\bv)\.try_clone\(\)\?/ => match vx_try_clone(v, &h.vs) { Ok(vx_x) => vx_x, Err(vx_e) => { vx_discard(out_tree, Ghost(o), Ghost(g), h); return Err(vx_e); } }
//@  rw /out_node\.push\((match vx_try_clone.*?\} \}), (match vx_try_clone.*?\} \})\)/ => let vx_k = \1; let vx_v = \2; out_node.push(vx_k, vx_v)
//@  rw /Internal\(_\) => (?:unreachable!|vx_unreachable)\(\)/ => Internal(_) => vx_never()
//@  rw /ptr::read\(&subtree\.root\)/ => vx_dup(&subtree.root)
//@  rw /mem::forget\(subtree\);/ => 
    requires tree(old(h), &old(h).t@), node.in_tree(old(h)), old(h).t@.s.len() <= usize::MAX,
    ensures match r { Err(_) => back(old(h), final(h)), Ok(m) => exists|g: PT<K, V>| #[trigger] copied(old(h), final(h), node.node.a, &m, &g) },
    decreases node.height,
//@body
    let ghost o = *h; let ghost p = node.node.a; let ghost mut g = leaf_t::<K, V>(0, Seq::empty()); let ghost n = h.n(node.node.a).keys.len();
    proof { assert(node_ok(h, &h.t@, p)); assert(node_ok(h, &h.t@, h.t@.root)); if h.t@.ht(p) > 0 { lemma_down(h, p, 0); } }
//@after /root: Root::new_leaf[^}]*\};/
 proof { let a = out_tree.root.node.ptr.a; lemma_leaf_start(&o, h, p, a); g = leaf_t(a, Seq::empty()); }
//@loop 0
    invariant tree(&o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) == 0, node_ok(&o, &o.t@, p), n == o.n(p).keys.len(), n <= 11, in_edge.node.node.a == p, in_edge.node.height == 0, in_edge.idx <= n, h.n(p) == o.n(p), h.live(p),
        leaf_half(&o, h, p, &g, in_edge.idx as int), out_node.node.a == g.root, out_node.height == 0, h.n(g.root).ok, h.n(g.root).leaf, h.n(g.root).keys.len() == in_edge.idx, mapped(&out_tree, &g), o == *old(h),
    ensures in_edge.idx == n,
    decreases n - in_edge.idx,
//@at /let \(k, v\) = kv\.into_kv/
 proof { lemma_copy_at(&o, h, p, in_edge.idx as int); }
//@at /let vx_k = /
 let ghost h1 = *h;
//@after /out_node\.push\(vx_k[^;]*;/
 vx_hold(Ghost(h1.t@), h);
 proof { lemma_leaf_more(&o, &h1, h, p, &g, in_edge.idx - 1, vx_k, vx_v); g = leaf_t(g.root, g.s.push((vx_k, vx_v))); }
//@at /Ok\(out_tree\)/
 proof { assert(copied(&o, h, p, &out_tree, &g)); }
//@at /\{\s*let mut out_node = match out_tree\.root\.push_level/
 let ghost h0 = *h; let ghost m0 = out_tree;
 proof { g = choose|g: PT<K, V>| #[trigger] copied(&o, h, o.n(p).edges[0], &out_tree, &g); lemma_held_tree(&o, h); }
//@at /let mut in_edge = internal/
 vx_hold(Ghost(h0.t@), h);
 proof { let w = out_tree.root.node.ptr.a; lemma_inner_start(&o, &h0, h, p, &m0, &g, w); g = grow_t(&g, w); lemma_held_tree(&o, h); }
//@loop 1
    invariant tree(&o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) > 0, node_ok(&o, &o.t@, p), n == o.n(p).keys.len(), n <= 11, in_edge.node.node.a == p, in_edge.node.height == o.t@.ht(p), in_edge.node.height == node.height, in_edge.idx <= n, h.n(p) == o.n(p), h.live(p),
        inner_half(&o, h, p, &g, in_edge.idx as int), out_node.node.a == g.root, out_node.height == node.height, mapped(&out_tree, &g), o == *old(h), o.t@.s.len() <= usize::MAX,
    ensures in_edge.idx == n,
    decreases n - in_edge.idx,
//@at /let k = match vx_try_clone/
 let ghost h1 = *h; let ghost i = kv.idx as int;
 proof { lemma_copy_at(&o, h, p, i); lemma_held_tree(&o, h); lemma_down(h, p, i + 1); lemma_down(&o, p, i + 1); }
//@at /let \(subroot, sublength\)/
 let ghost h2 = *h; let ghost g2 = choose|g: PT<K, V>| #[trigger] copied(&h1, h, o.n(p).edges[i + 1], &subtree, &g); let ghost m2 = subtree;
 proof { let u = g.root; assert(nok(&g, u)); assert(agn(&h1, &g, u)); assert(h1.dom().contains(u)); assert(h.n(u) == h1.n(u)); assert(h.dom().contains(u)); assert(nok(&g2, g2.root)); assert(agn(h, &g2, g2.root)); assert(g2.in_(g2.root)); }
//@after /out_node\.push\(k, v[^;]*;/
 vx_hold(Ghost(h2.t@), h);
 proof { lemma_inner_more(&o, &h1, &h2, h, p, &m2, &g, &g2, i, k, v); g = graft_t(&g, g.root, &g2, (k, v)); lemma_down(&o, p, i + 1); }
//@at /Ok\(out_tree\)\s*\}\s*\}\s*\}$/
 proof { lemma_down(&o, p, n as int); assert(copied(&o, h, p, &out_tree, &g)); }
//@end
/// the whole map copied: m is the tree g, its entries are copies of the map's in the same places, in order, and its nodes are occupied
pub open spec fn twin<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, m: &BTreeMap<K, V>, g: &PT<K, V>) -> bool {
    &&& aside(o, h, g) && mapped(m, g) && stocked(g) && (g.ht(g.root) > 0 ==> g.kv(g.root).len() > 0)
    &&& g.s.len() == o.t@.s.len() && copies(&o.t@, 0, g.s) && sorted(g.s)
}
/// an empty map
pub open spec fn blank<K, V>(m: &BTreeMap<K, V>) -> bool { m.root.node.ptr.a == SHARED && m.root.height == 0 && m.length == 0 }
pub proof fn lemma_twin<K, V>(o: &Heap<K, V>, h: &Heap<K, V>, m: &BTreeMap<K, V>, g: &PT<K, V>)
    requires tree(o, &o.t@), copied(o, h, o.t@.root, m, g),
    ensures twin(o, h, m, g),
{
    let t = o.t@; assert(node_ok(o, &t, t.root)); assert(occ_ok(o, &t, t.root));
    assert forall|i: int, j: int| 0 <= i < j < g.s.len() implies krank((#[trigger] g.s[i]).0) < krank((#[trigger] g.s[j]).0) by {
        axiom_clone_rank(t.s[0 + i].0, g.s[i].0); axiom_clone_rank(t.s[0 + j].0, g.s[j].0); assert(krank(t.s[i].0) < krank(t.s[j].0)); }
    assert(sorted(g.s));
}
impl<K, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: TryClone, V: TryClone> TryClone for BTreeMap<K, V> | try_clone | C06 C17
//@  heap mut
//@  rw /node::Root/ => Root
//@  rw /\bclone_subtree\(/ => try_clone_subtree(
    requires self.ok(old(h)),
    ensures match r { Err(_) => back(old(h), final(h)), Ok(m) => if old(h).t@.s.len() == 0 { blank(&m) && *final(h) == *old(h) } else { exists|g: PT<K, V>| #[trigger] twin(old(h), final(h), &m, &g) } },
//@body
    let ghost o = *h;
    proof { assert(node_ok(h, &h.t@, h.t@.root)); assert forall|m: BTreeMap<K, V>, h2: Heap<K, V>, g: PT<K, V>| #[trigger] copied(&o, &h2, o.t@.root, &m, &g) implies twin(&o, &h2, &m, &g) by { lemma_twin(&o, &h2, &m, &g); } }
//@end
}
//@fn src/btree/map.rs | fn clone | clone_subtree | C06
//@  heap mut
//@  probe loop
//@  sig /<'a, K: Clone, V: Clone>/ => <'a, K: 'a, V: 'a>
//@  sig /where\s*K: 'a,\s*V: 'a,/ => 
//@  sig /node::NodeRef/ => NodeRef
//@  rw /node::Root::new_leaf\(\)\.expect\("[^"]*"\)/ => vx_expect(Root::new_leaf())
//@  rw /out_tree\.root\.as_mut\(\)/ => out_tree.root.vx_mut()
//@  rw /out_tree\.root\.push_level\(\)\.expect\("[^"]*"\)/ => vx_free(vx_expect(out_tree.root.push_level()))
//@  rw /(?:\(\*k\)|\bk)\.clone\(\)/ => vx_clone(k, &h.ks)
//@  rw /(?:\(\*v\)|\bv)\.clone\(\)/ => vx_clone(v, &h.vs)
//@  rw /out_node\.push\((vx_clone\([^()]*\)), (vx_clone\([^()]*\))\)/ => let vx_k = \1; let vx_v = \2; out_node.push(vx_k, vx_v)
//@  rw /Internal\(_\) => (?:unreachable!|vx_unreachable)\(\)/ => Internal(_) => vx_never()
//@  rw /ptr::read\(&subtree\.root\)/ => vx_dup(&subtree.root)
//@  rw /mem::forget\(subtree\);/ => 
    requires tree(old(h), &old(h).t@), node.in_tree(old(h)), old(h).t@.s.len() <= usize::MAX,
    ensures exists|g: PT<K, V>| #[trigger] copied(old(h), final(h), node.node.a, &r, &g),
    decreases node.height,
//@body
    let ghost o = *h; let ghost p = node.node.a; let ghost mut g = leaf_t::<K, V>(0, Seq::empty()); let ghost n = h.n(node.node.a).keys.len();
    proof { assert(node_ok(h, &h.t@, p)); assert(node_ok(h, &h.t@, h.t@.root)); if h.t@.ht(p) > 0 { lemma_down(h, p, 0); } }
//@after /root: vx_expect[^}]*\};/
 proof { let a = out_tree.root.node.ptr.a; lemma_leaf_start(&o, h, p, a); g = leaf_t(a, Seq::empty()); }
//@loop 0
    invariant tree(&o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) == 0, node_ok(&o, &o.t@, p), n == o.n(p).keys.len(), n <= 11, in_edge.node.node.a == p, in_edge.node.height == 0, in_edge.idx <= n, h.n(p) == o.n(p), h.live(p),
        leaf_half(&o, h, p, &g, in_edge.idx as int), out_node.node.a == g.root, out_node.height == 0, h.n(g.root).ok, h.n(g.root).leaf, h.n(g.root).keys.len() == in_edge.idx, mapped(&out_tree, &g), o == *old(h),
    ensures in_edge.idx == n,
    decreases n - in_edge.idx,
//@at /let \(k, v\) = kv\.into_kv/
 proof { lemma_copy_at(&o, h, p, in_edge.idx as int); }
//@at /let vx_k = /
 let ghost h1 = *h;
//@after /out_node\.push\(vx_k[^;]*;/
 vx_hold(Ghost(h1.t@), h);
 proof { lemma_leaf_more(&o, &h1, h, p, &g, in_edge.idx - 1, vx_k, vx_v); g = leaf_t(g.root, g.s.push((vx_k, vx_v))); }
//@at /\bout_tree\s*\}\s*Internal\(/
 proof { assert(copied(&o, h, p, &out_tree, &g)); }
//@at /\{\s*let mut out_node = vx_free/
 let ghost h0 = *h; let ghost m0 = out_tree;
 proof { g = choose|g: PT<K, V>| #[trigger] copied(&o, h, o.n(p).edges[0], &out_tree, &g); lemma_held_tree(&o, h); }
//@at /let mut in_edge = internal/
 vx_hold(Ghost(h0.t@), h);
 proof { let w = out_tree.root.node.ptr.a; lemma_inner_start(&o, &h0, h, p, &m0, &g, w); g = grow_t(&g, w); lemma_held_tree(&o, h); }
//@loop 1
    invariant tree(&o, &o.t@), o.t@.fp.contains(p), o.t@.ht(p) > 0, node_ok(&o, &o.t@, p), n == o.n(p).keys.len(), n <= 11, in_edge.node.node.a == p, in_edge.node.height == o.t@.ht(p), in_edge.node.height == node.height, in_edge.idx <= n, h.n(p) == o.n(p), h.live(p),
        inner_half(&o, h, p, &g, in_edge.idx as int), out_node.node.a == g.root, out_node.height == node.height, mapped(&out_tree, &g), o == *old(h), o.t@.s.len() <= usize::MAX,
    ensures in_edge.idx == n,
    decreases n - in_edge.idx,
//@at /let k = vx_clone/
 let ghost h1 = *h; let ghost i = kv.idx as int;
 proof { lemma_copy_at(&o, h, p, i); lemma_held_tree(&o, h); lemma_down(h, p, i + 1); lemma_down(&o, p, i + 1); }
//@at /let \(subroot, sublength\)/
 let ghost h2 = *h; let ghost g2 = choose|g: PT<K, V>| #[trigger] copied(&h1, h, o.n(p).edges[i + 1], &subtree, &g); let ghost m2 = subtree;
 proof { let u = g.root; assert(nok(&g, u)); assert(agn(&h1, &g, u)); assert(h1.dom().contains(u)); assert(h.n(u) == h1.n(u)); assert(h.dom().contains(u)); assert(nok(&g2, g2.root)); assert(agn(h, &g2, g2.root)); assert(g2.in_(g2.root)); }
//@after /out_node\.push\(k, v[^;]*;/
 vx_hold(Ghost(h2.t@), h);
 proof { lemma_inner_more(&o, &h1, &h2, h, p, &m2, &g, &g2, i, k, v); g = graft_t(&g, g.root, &g2, (k, v)); lemma_down(&o, p, i + 1); }
//@at /out_tree\s*\}\s*\}\s*\}$/
 proof { lemma_down(&o, p, n as int); assert(copied(&o, h, p, &out_tree, &g)); }
//@end
impl<K, V> BTreeMap<K, V> {
//@fn src/btree/map.rs | impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> | clone | C06
//@  heap mut
//@  rw /node::Root/ => Root
    requires self.ok(old(h)),
    ensures if old(h).t@.s.len() == 0 { blank(&r) && *final(h) == *old(h) } else { exists|g: PT<K, V>| #[trigger] twin(old(h), final(h), &r, &g) },
//@body
    let ghost o = *h;
    proof { assert(node_ok(h, &h.t@, h.t@.root)); assert forall|m: BTreeMap<K, V>, h2: Heap<K, V>, g: PT<K, V>| #[trigger] copied(&o, &h2, o.t@.root, &m, &g) implies twin(&o, &h2, &m, &g) by { lemma_twin(&o, &h2, &m, &g); } }
//@end
}
}
fn main() {}
