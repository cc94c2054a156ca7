"""Which contracts decide which property, and running the verifiers for one property."""
import os, re
from concurrent.futures import ThreadPoolExecutor
from common import *
import vunit as V

COMMON_TRUST = [
    "the Verus verifier (Rust front end, VIR, AIR), rustc and Z3",
    "the extraction (tools/rustlex.py, tools/vunit.py): it drops comments, attributes, `use` lines in bodies, visibility, `unsafe`, `default`; chooses #[cfg] alternatives; rewrites combinators with closures written in place to the match they abbreviate, `for x in it` to `while let Some(x) = it.next()`, ptr::write/write_bytes/drop_in_place to operations on the vector that owns the buffer, and the rw/sig rules printed in verus/*.rs",
]
UNIT_TRUST = {
    "vec": ["verus/vec_model.rsi: contracts of alloc::vec::Vec (slots, length, capacity, requests), raw pointers into its buffer and slice iterators",
            "verus/vec.rs: contracts of Read::take/read_to_end, of str and of Iterator::size_hint; sources that lie about size_hint are not modelled",
            "usize is 64 bits in the verified text"],
    "small": ["verus/small.rs: contracts of Box, boxed slices, Rc, Arc, String::from_utf8 and fmt::Write; a first reservation reserves exactly what was asked"],
    "hash": ["verus/hash.rs: contracts of HashMap (a map keyed by classes of equal keys, with room for `left` more), its iterators; Eq, Hash and Borrow are consistent and clones of a key are equal to it"],
    "tree": ["verus/tree.rs: Ord of keys and of their borrowed forms is one total order, written as ranks; Borrow agrees with it; RangeBounds and ==, > on bounds agree with it; slice::Iter::enumerate; the node operations by the contracts proved in unit node",
             "verus/tree_model.rsi: the heap of a map holds one tree, named by ghost labels; that every operation of the map re-establishes this is proved in the units of the operations listed, and assumed for the others"],
    "treemut": ["verus/treemut.rs: vx_drop_spare (dropping the spare nodes of a failed insertion releases exactly them), a key is a borrowed form of itself; the `root` field of the map inside an entry is modelled by the entry's own reference; fewer than usize::MAX entries",
                "the contracts of units node and tree, proved there"],
    "treedel": ["verus/treedel.rs: vx_is_root (into_root_mut gives the root the entry came from; the obligation is that the node is that root); the contracts of units node, tree and treemut, proved there"],
    "treebulk": ["the contracts of units node, tree, treemut and treedel, proved there"],
    "treebuild": ["verus/treebuild.rs: an iterator yields finitely many items (Src); vx_expect (Result::expect panics when there is no memory left, as these functions say), vx_free and vx_is_root (the node reference is into the root of the same map); the contracts of units node to treebulk, proved there"],
    "treesplit": ["verus/treesplit.rs: vx_shared_node (the address of the static empty root); dropping the new map when its allocation is refused releases exactly its nodes; the contracts of units node to treebuild, proved there"],
    "treeinto": ["verus/treeinto.rs: reading an entry out of a node moves it (the slot is spent); the destructor of a value runs where `drop` is called; the contracts of units node and tree, proved there"],
    "treeclone": ["verus/treeclone.rs: what cloning a key or a value gives (`cl`, any value; a copy of a key has its rank), vx_discard (dropping a half-built tree releases exactly its nodes), vx_clone (infallible clones panic when memory is refused); the contracts of units node to treebuild, proved there"],
    "set": ["the contracts of the BTreeMap operations over the sequence of entries (verus/map_model.rsi), proved in units seam and contents"],
    "seam": ["verus/seam.rs: a heap holds fewer than usize::MAX entries, as nodes take 16 bytes at least (axiom_finite); a look-up by a borrowed form is in order (axiom_admits, the definition); two trees in one memory are each in a memory of its own (vx_divide); vx_memory, vx_cmp; the contracts of units node to treeinto, proved there"],
    "contents": ["the contracts of the BTreeMap operations over the sequence of entries (verus/map_model.rsi), proved in unit seam; verus/contents.rs: two maps hold fewer than usize::MAX entries together (axiom_both), the primitive operations of occupied and vacant entries over a sequence, Peekable, Iterator::cmp/partial_cmp, Hasher, Formatter::debug_map and ==/< on keys and values"],
    "node": ["verus/node_model.rsi: contracts of the memory that holds B-tree nodes (slots, headers, raw pointers into them, moves and copies), of its allocator, boxes of nodes, and slices over a node's keys and values"],
}


# units of lemmas only, and the properties that rest on them
LEMMAS = {"seam": ["C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19", "C20"]}


def claimed_units(prop):
    out = []
    for n in V.units():
        u = V.Unit(n)
        if prop in LEMMAS.get(n, []) or any(prop in p["props"] for p in u.fns()):
            out.append(n)
    return out


def assumed(units):
    """A mechanical scan for everything that is assumed in the units."""
    out = []
    for n in units:
        t = V.Unit(n)
        text = "\n".join(x for x in t.parts if isinstance(x, str))
        k = len(re.findall(r"external_body\]\s*(?:#\[[^\n]*\]\s*)*(?:pub\s+)?(?:const\s+)?fn", text))
        a = len(re.findall(r"\baxiom\s+fn|\bassume\s*\(|\badmit\s*\(", text))
        out.append("unit %s: %d assumed contracts (external_body functions of the model), %d axioms or assumptions" % (n, k, a))
    return out


def setup():
    for n in V.units():
        V.prove_unit(n, probes=False)


def prove(prop, tier):
    us = claimed_units(prop)
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda n: V.prove_unit(n), us))
    obl, cmds, notes, fns, probes, secs = [], [], [], [], 0, 0.0
    for r in res:
        secs += r.get("smt", 0.0)
        notes += ["%s: %s" % (r["unit"], x) for x in r["notes"]]
        probes += r.get("probes", 0)
        if r["cmd"]:
            cmds.append(r["cmd"])
        for f, v in r["fns"].items():
            if prop not in v["props"]:
                # another property's own obligation, in a unit this property's argument goes through: when it is not
                # discharged, the argument is not complete either
                if v["status"] != "discharged":
                    obl.append({"name": "%s: %s (relied upon)" % (r["unit"], f), "backend": "verus/z3", "status": "undecided", "seconds": v["seconds"],
                                "detail": "decides %s; here: %s: %s" % (" ".join(v["props"]), v["status"], v.get("detail", ""))})
                continue
            st = v["status"]
            if st == "failed" and prop not in v["fail_props"]:
                st = "discharged"
            obl.append({"name": "%s: %s" % (r["unit"], f), "backend": "verus/z3", "status": st, "seconds": v["seconds"], "detail": v.get("detail", "")})
            if st == "discharged":
                fns.append(f)
        whole = r.get("verified") is not None and not r["notes"]
        obl.append({"name": "%s: lemmas and ghost code" % r["unit"], "backend": "verus/z3", "status": "discharged" if whole else "undecided", "seconds": 0, "detail": "; ".join(r["notes"])[:600]})
    for rel, k, how in V.strangers(prop):
        obl.append({"name": "%s %s" % (rel, k), "backend": "verus/z3", "status": "undecided", "seconds": 0, "detail": "%s, and not under contract" % how})
    dis = [o for o in obl if o["status"] == "discharged"]
    trusted = COMMON_TRUST + [x for n in us for x in UNIT_TRUST.get(n, [])]
    level = claim(prop)[1]
    if level == "proof" and len(dis) != len(obl):
        level = "exploration"   # this run did not discharge everything
    return {"obligations": obl, "count": {"generated": len(obl), "discharged": len(dis)}, "commands": cmds, "trusted": trusted, "functions": fns,
            "seconds": secs, "probes": probes, "bounded": BOUNDED.get(prop, []), "notes": notes,
            "explanation": EXPLAIN.get(prop, ""), "level": level, "assumptions": trusted + assumed(us)}


BOUNDED = {}
EXPLAIN = {}
EXPLAIN["C11"] = EXPLAIN["C12"] = "Proved: every look-up and search, try_entry, try_insert, remove, the entries' operations, split_off, from_sorted_iter, try_clone, into_iter, clear and the repair of a tree's edges, on the tree of any shape, from what each node operation does to the nodes (insertion, splitting, merging, stealing, links), itself proved for every node; append, extend and collection over those."
EXPLAIN["C16"] = "Proved: try_spare_nodes, VacantEntry::try_insert, try_entry and try_insert of the map leave the tree as it was when an allocation is refused; so do split_off and try_clone."
EXPLAIN["C15"] = "Proved: split_off, recalc_length, from_sorted_iter and into_iter on trees of any shape, with the repair of the edges they rest on; append and MergeIter over their contracts."
EXPLAIN["C17"] = "Proved: every node operation, insertion, removal, IntoIter (each entry handed out once; drop spends the rest and releases every node once, whatever was consumed from either end), drop and clear of the map, try_clone and its failure. Explored within bounds: destructors that panic, and the layouts nodes are released with."
EXPLAIN["C18"] = "Proved: every set operation, operator, strategy and size hint, from the contracts of the map's operations, which unit seam derives from those proved on trees."
EXPLAIN["C19"] = "Proved: the set's element operations and the entry methods built on the primitive ones, from the contracts of the map's operations, which unit seam derives from those proved on trees. try_entry, VacantEntry::try_insert and OccupiedEntry get, get_mut, into_mut, insert, remove, remove_entry from the tree."
EXPLAIN["C20"] = "Proved: ==, partial_cmp, cmp, hash and fmt of maps as functions of the sequence of entries alone; the derived ==, partial_cmp, cmp and hash of sets and == of TryVec (the text the compiler derives, taken on every run); fmt of sets, of TryVec and of TryHashMap. Explored within bounds: Debug of the set's iterators."
PROVED = {
    "C01": "every FallibleVec and TryVec operation against the sequence view",
    "C02": "the Err postconditions of every FallibleVec and TryVec operation",
    "C05": "capacity, buffer identity and request count in every reservation and growth postcondition",
    "C08": "every TryHashMap operation against the map view",
    "C09": "bounded reads and io::Write against the byte-sequence view",
    "C10": "try_format against the text view",
    "C06": "try_clone of Option, Box, TryBox, Vec, TryVec, Arc, TryHashMap; try_clone and clone of BTreeMap, on trees of any shape; the integers and bool",
    "C13": "the borrowing iterators of BTreeMap (forwards, backwards, mixed; lengths), from the tree invariant, and the set's over them, and the consuming ones (any mixture of both ends, dropped at any point)",
    "C14": "range_search, range, range_mut and the iteration of ranges, from the tree invariant, and the set's ranges over them",
    "C15": "split_off, append and what they rest on",
    "C16": "the Err postconditions of insertion, split_off and try_clone",
    "C19": "the set's element operations and the entry methods, over the contracts of the map's primitive operations, themselves proved from the tree",
    "C18": "every set operation and strategy against the mathematical sets, over the contracts of the map, themselves derived from the tree",
}
PARTLY = {
    "C03": "no aborting std operation is called without room, in the vector, box, pointer, formatting and hash-map families; node allocation of B-tree insertion, splitting and cloning from the tree; io::Error and formatting adapters also by the bounded companion",
    "C04": "slot ownership in every vector operation, valid at every point where user code runs; panicking destructors additionally by the bounded companion",
    "C11": "every operation of the map on trees of any shape; where a node's arrays begin in memory, and the pointer back to the root, are primitives of the model, explored by the companion (element types of every size and alignment)",
    "C12": "the tree invariant preserved by every operation of the map; where a node's arrays begin in memory, and the pointer back to the root, are primitives of the model, explored by the companion (element types of every size and alignment)",
    "C17": "nodes and entries released once by every operation; panicking destructors and deallocation layouts by the bounded companion",
    "C20": "comparison, hashing and printing of maps as functions of their entries, comparison and hashing of sets and equality of TryVec as derived, printing of sets, TryVec and TryHashMap; Debug of the set's iterators by the bounded companion",
    "C07": "try_new of Box, TryBox, Rc and Arc and into_raw/from_raw; alignment and the allocation's layout by the bounded companion",
}


def claim(p):
    if p in PROVED:
        return ("contracts on the real functions, discharged by Verus (Z3) on every run", "proof", PROVED[p])
    if p in PARTLY:
        return ("contracts on the real functions, discharged by Verus (Z3) on every run; bounded companion for the rest", "proof", PARTLY[p])
    return ("bounded exploration of the real crate (contracts being added)", "exploration", "bounded cases only so far")
