"""Verus units: functions extracted mechanically from /repo/src, put under contract, verified.

A unit file (verus/<unit>.rs) is Verus source with directives:

  //@fn FILE | IMPL HEADER | NAME | PROPERTIES     the function to extract (its text replaces the block)
  //@  as NEW                                      emit it under another name
  //@  sig /regex/ => text                         rewrite of the signature
  //@  rw /regex/ => text                          rewrite of the body
  //@  norule NAME                                 do not apply the general rule NAME
  //@  probe entry|loop|none                       where the vacuity probe goes (default: exit)
  //@  cfg TEXT                                    choose the candidate whose attributes contain TEXT
    <contract clauses>
  //@loop N                                        clauses of the N-th loop of the function
  //@body                                          ghost text at the start of the body
  //@at /regex/                                    ghost text before the first match in the body
  //@after /regex/                                 ghost text after the first match in the body
  //@end
  //@seam FILE                                    the text of a model, in which the items named are proved instead of assumed:
  //@prove /regex/                                 what follows replaces the body of the function (or the item) it matches
  //@endseam

A clause line may end in  // [C01 C02] : its failure concerns these properties only.
"""
import hashlib, json, os, re, time
from concurrent.futures import ThreadPoolExecutor
from common import *
import rustlex as R

UNITS = os.path.join(VERIF, "verus")
PINS = os.path.join(UNITS, "pins.json")
_items = {}


def repo_items(file):
    p = os.path.join(REPO, file)
    if p not in _items:
        _items[p] = R.items(read(p), file) if os.path.exists(p) else []
    return _items[p]


class Lost(Exception):
    pass


DERIVE = r"#\[derive\(([^)]*)\)\]\s*(?:#\[[^\n]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:struct|enum|union)\s+(\w+)"


def derived_items(file):
    """The functions that the derive attributes of a file stand for, as the compiler writes them out."""
    p = os.path.join(REPO, file)
    if "derives of " + p not in _items:
        t = R.strip_comments(read(p)) if os.path.exists(p) else ""
        types = []
        for m in re.finditer(DERIVE, t):
            k = re.search(r"[;{]", t[m.end():])
            if k:
                e = m.end() + k.start()
                types.append(t[m.start():R.match_close(t, e) + 1 if t[e] == "{" else e + 1])
        tc = NIGHTLY if "/btree" in file else STABLE
        d = os.path.join(BUILD, "verus")
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "derives_%s.rs" % re.sub(r"\W", "_", file))
        write_if_changed(src, "\n".join(types) + "\n")
        _, out, _ = sh(["rustc", "--crate-type", "lib", "--edition", "2018", "-Zunpretty=expanded", src], cwd=d, e=env(tc, RUSTC_BOOTSTRAP="1"), timeout=60)
        out = re.sub(r"::core::(?:[a-z_]+::)+", "", out)
        _items["derives of " + p] = R.items(out, file) if types else []
    return _items["derives of " + p]


def lookup(file, impl, name, cfg=None):
    c = [f for f in repo_items(file) if f.name == name]
    e = [f for f in c if R.norm(f.impl) == R.norm(impl)]
    if not e:
        e = [f for f in derived_items(file) if f.name == name and R.norm(f.impl) == R.norm(impl)]
    if cfg:
        e2 = [f for f in e if cfg in f.attrs]
        e = e2 or e
    if len(e) >= 1:
        return e[0]
    raise Lost("the function %s of `%s` in %s is gone" % (name, impl, file))


# ---- general rules: equivalences that bring std combinators within the verifier's dialect ----

def combinators(b):
    """`r.map_or(d, |p| e)`, `.map_err(|p| e)`, `.map(|p| e)`... with a closure written in place -> the match they abbreviate."""
    pat = re.compile(r"\.\s*(map_or|map_or_else|map_err|map|and_then|ok_or_else|unwrap_or_else|or_else)\s*\(")
    start = 0
    while True:
        m = pat.search(b, start)
        if not m:
            return b
        op = m.end() - 1
        cl = R.match_close(b, op)
        args = b[op + 1:cl].strip()
        rs = R.receiver_start(b, m.start())
        recv = b[rs:m.start()].strip()
        kind = m.group(1)
        d = None
        if kind == "map_or":
            k = R.find_top(args, 0, ",")
            if k < 0:
                start = m.end()
                continue
            d, args = args[:k].strip(), args[k + 1:].strip()
        am = re.match(r"(?:move\s+)?\|([^|]*)\|\s*(.*)$", args, re.S)
        if not am or kind in ("map_or_else",):
            start = m.end()
            continue
        p, e = am.group(1).strip(), am.group(2).strip().rstrip(",")
        if kind == "map" and (re.search(r"\b(iter|iter_mut|into_iter|range|keys|values)\s*\([^()]*\)$", recv)):
            start = m.end()
            continue
        if kind == "map_or":
            t = "(match %s { None => %s, Some(%s) => { %s } })" % (recv, d, p, e)
        elif kind == "map_err":
            t = "(match %s { Ok(vx_v) => Ok(vx_v), Err(%s) => Err({ %s }) })" % (recv, p, e)
        elif kind == "map":
            t = "(match %s { None => None, Some(%s) => Some({ %s }) })" % (recv, p, e)
        elif kind == "and_then":
            t = "(match %s { None => None, Some(%s) => { %s } })" % (recv, p, e)
        elif kind == "ok_or_else":
            t = "(match %s { None => Err({ %s }), Some(vx_v) => Ok(vx_v) })" % (recv, e)
        elif kind == "unwrap_or_else":
            t = "(match %s { None => { %s }, Some(vx_v) => vx_v })" % (recv, e) if p == "" else None
        else:
            t = None
        if t is None:
            start = m.end()
            continue
        b = b[:rs] + t + b[cl + 1:]
        start = rs + 1


def paths(b):
    b = re.sub(r"\b(core|alloc|std)::(marker|mem|ptr|cmp|iter|slice)::", r"\2::", b)
    b = re.sub(r"\bmarker::Sized\b", "Sized", b)
    return b


def or_guard(b):
    """`P | Q if g => { .. }` -> `P if g => { .. } Q if g => { .. }`"""
    while True:
        m = re.search(r"(\([^{};=]*?\)(?:\s*\|\s*\([^{};=]*?\))+)\s*if\s+([^{}]*?)=>\s*\{", b)
        if not m:
            return b
        e = R.match_close(b, m.end() - 1) + 1
        body = b[m.end() - 1:e]
        arms = " ".join("%s if %s => %s" % (q.strip(), m.group(2).strip(), body) for q in re.split(r"(?<=\))\s*\|\s*(?=\()", m.group(1)))
        b = b[:m.start()] + arms + b[e:]


def underscore_for(b):
    """`for _ in e` -> `for vx_i in e`"""
    return re.sub(r"\bfor\s+_\s+in\b", "for vx_i in", b)


def for_iter(b):
    """`for PAT in EXPR { .. }` over anything but a range -> `let mut it = EXPR; while let Some(PAT) = it.next() { .. }`"""
    start, n = 0, 0
    while True:
        m = re.compile(r"(?<!')\bfor\s+(?!<)").search(b, start)
        if not m:
            return b
        k = R.find_top(b, m.end(), "{")
        head = b[m.end():k]
        mm = re.match(r"(.*?)\s+in\s+(.*)$", head, re.S)
        start = m.end()
        if not mm or ".." in mm.group(2):
            continue
        e = R.match_close(b, k)
        n += 1
        t = "{ let mut vx_src%d = %s; while let Some(%s) = vx_src%d.next() " % (n, mm.group(2).strip(), mm.group(1), n)
        b = b[:m.start()] + t + b[k:e + 1] + " }" + b[e + 1:]


def args_of(b, op):
    cl = R.match_close(b, op)
    out, i = [], op + 1
    while True:
        k = R.find_top(b, i, ",")
        if k < 0 or k > cl:
            if b[i:cl].strip():
                out.append(b[i:cl].strip())
            return out, cl
        out.append(b[i:k].strip())
        i = k + 1


def pointers(b, owner):
    """Writes and drops through a raw pointer into a vector's buffer become operations on the vector that owns the
    buffer, evaluated in the same order; where user code runs in between, the vector has to be valid at that point."""
    for name in ("write", "write_bytes", "drop_in_place"):
        start = 0
        while True:
            m = re.compile(r"\bptr::%s\s*\(" % name).search(b, start)
            if not m:
                break
            a, cl = args_of(b, m.end() - 1)
            if name == "write" and len(a) == 2:
                t = "{ let vx_p = %s; proof { assert(%s.wf()); /* the vector is valid while user code runs */ } // [C04]\n let vx_x = %s; %s.vx_write(vx_p, vx_x) }" % (a[0], owner, a[1], owner)
            else:
                t = "%s.vx_%s(%s)" % (owner, name, ", ".join(a))
            b = b[:m.start()] + t + b[cl + 1:]
            start = m.start() + 10
    return b


def cfg_true(e, feats):
    e = e.strip()
    m = re.match(r"^(not|any|all)\s*\((.*)\)$", e, re.S)
    if m:
        parts, i = [], 0
        a = m.group(2)
        while True:
            k = R.find_top(a, i, ",")
            if k < 0:
                if a[i:].strip():
                    parts.append(a[i:])
                break
            parts.append(a[i:k])
            i = k + 1
        v = [cfg_true(x, feats) for x in parts]
        return (not v[0]) if m.group(1) == "not" else any(v) if m.group(1) == "any" else all(v)
    m = re.match(r'^feature\s*=\s*"(\w+)"$', e)
    if m:
        return m.group(1) in feats
    if e == "test":
        return False
    if e.startswith("target_"):
        return True
    raise Lost("an unknown cfg: " + e)


def cfgs(b, feats):
    """Chooses the blocks and statements a #[cfg] selects; drops other attributes."""
    while True:
        m = re.search(r"#\[cfg\((.*?)\)\]\s*", b, re.S)
        if not m:
            break
        op = b.index("[", m.start())
        cl = R.match_close(b, op)
        e = b[op + 1:cl].strip()
        e = e[e.index("(") + 1:e.rindex(")")]
        j = cl + 1
        while b[j].isspace():
            j += 1
        if cfg_true(e, feats):
            b = b[:m.start()] + b[j:]
        else:
            if b[j] == "{":
                k = R.match_close(b, j) + 1
            else:
                k = R.find_top(b, j, ";{")
                k = (R.match_close(b, k) if b[k] == "{" else k) + 1
            b = b[:m.start()] + b[k:]
    b = re.sub(r"#\[[^\]\n]*\]", "", b)
    b = re.sub(r"(?<=[{;}\s])use\s+[\w:]+(\s+as\s+\w+)?\s*;", "", b)
    return b


# ---- a heap of nodes: raw node memory becomes an explicit ghost-free parameter ----

MEMFN = {"ptr::read": "vx_read", "ptr::write": "vx_write", "ptr::copy": "vx_copy", "ptr::copy_nonoverlapping": "vx_copy_nonoverlapping",
         "mem::replace": "vx_replace", "slice_insert": "slice_insert", "slice_remove": "slice_remove"}


def which_memory(a):
    if re.search(r"\bedges?\b|vx_edges|_edges", a):
        return "&mut h.es"
    if re.search(r"\bkeys?\b|keys_mut|vx_keys|kv\.0|source\.0|\(\)\.0|\bkey\b", a):
        return "&mut h.ks"
    if re.search(r"\bvals?\b|vals_mut|vx_vals|kv\.1|source\.1|\(\)\.1", a):
        return "&mut h.vs"
    raise Lost("cannot tell which array `%s` accesses" % a[:80])


def node_memory(b, mem=None):
    """Accesses through raw pointers to nodes -> operations on the heap that holds the nodes, in the same order."""
    b = re.sub(r"\bdebug_assert!\s*\(", "vx_debug_assert(", b)
    b = re.sub(r"\bunreachable!\s*\(\s*\)", "vx_unreachable()", b)
    b = re.sub(r"\bptr::read\(\s*&self\s*\)", "vx_dup(&self)", b) if mem is None else b
    b = re.sub(r"\bptr::read\(\s*self\s*\)", "vx_dup(&*self)", b) if mem is None else b
    b = re.sub(r"\bGlobal\s*\.deallocate\(\s*((?:[\w.]|::|\([\w.]*\))+?)\.cast\(\),\s*Layout::new::<(Leaf|Internal)Node<K, V>>\(\),?\s*\)", lambda m: "vx_free_%s(%s, h)" % (m.group(2).lower(), re.sub(r"^NonNull::from\((.*)\)$", r"\1", m.group(1))), b)
    b = re.sub(r"\(\*((?:(?!\(\*).)*?)\.as_leaf_mut\(\)\)\s*\.len\s*(\+=|-=)\s*([^;]*);", lambda m: "{ let vx_n = %s.as_leaf_mut(); let vx_l = h.hd.len(vx_n) %s (%s); h.hd.set_len(vx_n, vx_l); }" % (m.group(1), m.group(2)[0], m.group(3)), b, flags=re.S)
    b = re.sub(r"\(\*((?:(?!\(\*).)*?)\.as_leaf_mut\(\)\)\s*\.len\s*=\s*([^;=]*);", lambda m: "{ let vx_n = %s.as_leaf_mut(); h.hd.set_len(vx_n, %s); }" % (m.group(1), m.group(2)), b, flags=re.S)
    b = re.sub(r"\(\*((?:(?!\(\*).)*?)\.as_leaf_mut\(\)\)\s*\.parent\s*=\s*([^;=]*);", lambda m: "{ let vx_n = %s.as_leaf_mut(); h.hd.set_parent(vx_n, %s); }" % (m.group(1), m.group(2)), b, flags=re.S)
    b = re.sub(r"\(\*((?:(?!\(\*).)*?)\.as_leaf_mut\(\)\)\s*\.parent_idx\s*\.write\(([^;]*)\);", lambda m: "{ let vx_n = %s.as_leaf_mut(); h.hd.set_parent_idx(vx_n, %s); }" % (m.group(1), m.group(2)), b, flags=re.S)
    b = re.sub(r"(?:&mut\s+|&)?([\w.]+(?:\s*\.\s*(?:reborrow_mut|cast_unchecked)(?:::<[\w:]+>)?\(\))*)\s*\.\s*as_internal(?:_mut)?\(\)\s*\.\s*edges\b", r"\1.vx_edges()", b)
    b = re.sub(r"\bptr::null(_mut)?\(\)", "vx_null()", b)
    # MaybeUninit::slice_as_mut_ptr(x) -> x.as_mut_ptr();  slice::from_raw_parts_mut(p, n) -> vx_slice(p, n)
    b = re.sub(r"\bMaybeUninit::slice_as_(?:mut_)?ptr\(\s*(?:&mut\s+|&)?([^()]*(?:\(\))?[^()]*?)\s*\)", r"\1.as_mut_ptr()", b)
    b = re.sub(r"\bslice::from_raw_parts(_mut)?\(", "vx_slice(", b)
    # memory functions
    todo = []
    for name, new in MEMFN.items():
        for m in re.finditer(r"(?<![\w:])%s\s*\(" % re.escape(name), b):
            if b[:m.start()].rstrip().endswith("fn"):
                continue
            cl = R.match_close(b, m.end() - 1)
            a = b[m.end():cl]
            t = a.rstrip()
            if name == "mem::replace" and re.match(r"\s*(?:&mut\s+)?\*?self\.(length|root|height|range|front|back)\s*,", a):
                continue  # of a field of a plain value, not of node memory
            todo.append((cl, cl, (" " if t.endswith(",") else ", ") + (mem or which_memory(a))))
            todo.append((m.start(), m.end() - 1, new))
    for x, y, t in sorted(todo, key=lambda z: -z[0]):
        b = b[:x] + t + b[y:]
    return b


def thread(b, names, h="h"):
    """Passes the heap to every function that takes it."""
    ins = []
    for m in re.finditer(r"(?<![\w])(%s)\s*(::\s*<[^()]*?>)?\s*\(" % "|".join(re.escape(n) for n in sorted(names, key=len, reverse=True)), b):
        if b[:m.start()].rstrip().endswith("fn"):
            continue
        if m.group(1) == "len" and ("h.hd." == b[max(0, m.start() - 5):m.start()] or re.search(r"\b(keys|vals)(_mut)?\(\)\s*\.\s*$", b[:m.start()])):
            continue
        cl = R.match_close(b, m.end() - 1)
        t = b[m.end():cl].rstrip()
        ins.append((cl, h if not t else (" " if t.endswith(",") else ", ") + h))
    for x, t in sorted(ins, key=lambda z: -z[0]):
        b = b[:x] + t + b[x:]
    return b


def range_end(b):
    """`for i in a..f(x) {` -> `let vx_end0 = f(x); for i in a..vx_end0 {`"""
    start, n = 0, 0
    while True:
        m = re.compile(r"(?<!')\bfor\s+\w+\s+in\s+").search(b, start)
        if not m:
            return b
        k = R.find_top(b, m.end(), "{")
        start = m.end()
        head = b[m.end():k]
        if ".." not in head:
            continue
        a, e = head.split("..", 1)
        if not re.search(r"\w\s*\(", e) or e.strip().startswith("="):
            continue
        t = "let vx_end%d = %s; " % (n, e.strip())
        n += 1
        b = b[:m.start()] + t + b[m.start():m.end()] + a + "..vx_end%d " % (n - 1) + b[k:]
        start = m.end() + len(t)


def for_each(b):
    """`e.for_each(|p| { .. });` -> `for p in e { .. }`"""
    while True:
        m = re.search(r"\.\s*for_each\(\s*(?:move\s+)?\|([^|]*)\|\s*\{", b)
        if not m:
            return b
        e = R.match_close(b, m.end() - 1)
        mm = re.compile(r"\s*\)\s*;").match(b, e + 1)
        if not mm:
            return b
        rs = R.receiver_start(b, m.start())
        b = b[:rs] + "for %s in %s %s" % (m.group(1).strip(), b[rs:m.start()].strip(), b[m.end() - 1:e + 1]) + b[mm.end():]


def all_any(b):
    """`e.all(|p| c)` -> a loop over e that stops at the first element for which c is false (`any` likewise)"""
    while True:
        m = re.search(r"\.\s*(all|any)\(\s*\|([^|]*)\|\s*", b)
        if not m:
            return b
        op = b.index("(", m.start())
        e = R.match_close(b, op)
        rs = R.receiver_start(b, m.start())
        x = "vx_" + m.group(1)
        c = b[m.end():e].strip()
        a = m.group(1) == "all"
        b = b[:rs] + "{ let mut %s = %s; for %s in %s { if %s(%s) { %s = %s; break; } } %s }" % (x, "true" if a else "false", m.group(2).strip(), b[rs:m.start()].strip(), "!" if a else "", c, x, "false" if a else "true", x) + b[e + 1:]


RULES = {"for_each": for_each, "all_any": all_any, "combinators": combinators, "underscore_for": underscore_for, "for_iter": for_iter, "or_guard": or_guard}
SIG_DROP = [(r"\b(default|unsafe)\s+fn\b", "fn"), (r"\bpub\s*\((crate|super)\)\s*", "pub ")]


def unwrapped(parts):
    """A unit's parts without the `verus! { .. } fn main() {}` around them."""
    a = next(i for i, x in enumerate(parts) if x == "verus! {")
    b = max(i for i, x in enumerate(parts) if x == "}")
    return parts[a + 1:b]


def seamed(name, proofs):
    """The lines of a model in which some of what it assumes is given a body or a definition instead."""
    t = read(os.path.join(UNITS, name))
    for rx, lines in proofs:
        m = re.search(rx, t, re.S)
        if m is None:
            raise ValueError("%s has no %s" % (name, rx))
        head = list(re.finditer(r"(?:pub(?:\(\w+\))? )?(?:broadcast )?(?:(?:open |closed |uninterp )?spec |proof |axiom )?(?:fn|struct|use|enum|impl)\b", m.group(0)))[-1].start() + m.start()
        line = t.rfind("\n", 0, head) + 1
        fn = re.match(r"(pub )?fn\b", t[head:])
        # the attributes before it
        top = line
        while re.match(r"\s*#\[", t[t.rfind("\n", 0, top - 1) + 1:top]):
            top = t.rfind("\n", 0, top - 1) + 1
        if fn:
            i = t.index("{ unimplemented!() }", head)
            attrs = re.sub(r"[^\n]*external_body[^\n]*\n", "", t[top:line])
            t = t[:top] + attrs + t[line:i] + "{\n//@seamprobe\n" + "\n".join(lines) + "\n}" + t[i + len("{ unimplemented!() }"):]
        else:
            i, d = head, 0
            while not (t[i] == ";" and d == 0):
                d += (t[i] in "([{") - (t[i] in ")]}")
                if t[i] == "}" and d == 0:
                    i += t[i + 1:i + 2] == ";"
                    break
                i += 1
            t = t[:top] + "\n".join(lines) + t[i + 1:]
    return t.splitlines()


class Unit:
    def __init__(self, name, text=None):
        self.name = name
        self.src = text if text is not None else read(os.path.join(UNITS, name + ".rs"))
        self.parse()

    def parse(self):
        self.parts = []  # str or dict
        self.lost = []
        self.threads = set()
        cur = None
        sect = None
        seam = None
        for l in self.src.splitlines():
            st = l.strip()
            m = re.match(r"//@include\s+(\S+)", st)
            if m and cur is None:
                sub = Unit(self.name, read(os.path.join(UNITS, m.group(1))))
                self.parts += sub.parts
                self.lost += sub.lost
                self.threads |= sub.threads
                continue
            m = re.match(r"//@assume\s+(\S+)", st)
            if m and cur is None:
                # the functions of another unit, by their contracts only (they are proved there)
                sub = Unit(self.name, read(os.path.join(UNITS, m.group(1))))
                for x in unwrapped(sub.parts):
                    if isinstance(x, dict):
                        x["assumed"] = True
                    elif re.match(r"\s*(pub\s+)?(broadcast\s+)?proof fn\b", x) and not (self.parts and isinstance(self.parts[-1], str) and "external_body" in self.parts[-1]):
                        self.parts.append("#[verifier::external_body]")   # a lemma, proved in that unit
                    self.parts.append(x)
                self.lost += sub.lost
                self.threads |= sub.threads
                continue
            m = re.match(r"//@seam\s+(\S+)$", st)
            if m and cur is None:
                seam = [m.group(1), []]
                continue
            if seam is not None:
                m = re.match(r"//@prove\s+/(.*)/$", st)
                if m:
                    seam[1].append((m.group(1), []))
                elif st == "//@endseam":
                    self.parts += seamed(*seam)
                    seam = None
                elif seam[1]:
                    seam[1][-1][1].append(l)
                continue
            m = re.match(r"//@threads\s+(.*)$", st)
            if m and cur is None:
                self.threads |= set(m.group(1).split())
                continue
            m = re.match(r"//@type\s+(\S+)\s*\|\s*(.*)$", st)
            if m and cur is None:
                # a type declaration, emitted only when the source has exactly this text
                src = R.norm(re.sub(r"#\[[^\n]*\]", "", R.strip_comments(read(os.path.join(REPO, m.group(1))))))
                want, _, emit = m.group(2).partition("=>")
                if R.norm(re.sub(r"//.*", "", want)) not in src:
                    self.lost.append("the declaration `%s` in %s has changed" % (want, m.group(1)))
                self.parts.append(emit or want)
                continue
            m = re.match(r"//@const\s+(\S+)\s*\|\s*(\w+)$", st)
            if m and cur is None:
                # a constant, with the value the source gives it
                mm = re.search(r"\bconst\s+%s\s*:[^;]*;" % m.group(2), R.strip_comments(read(os.path.join(REPO, m.group(1)))))
                if mm is None:
                    self.lost.append("the constant %s in %s is gone" % (m.group(2), m.group(1)))
                self.parts.append("pub " + mm.group(0) if mm else "")
                continue
            if cur is None:
                m = re.match(r"//@fn\s+(.*)$", st)
                if m:
                    f = [x.strip() for x in m.group(1).split("|")]
                    # impl headers hold no '|'
                    cur = {"file": f[0], "impl": f[1], "fn": f[2], "props": f[3].split(), "as": None, "sig": [], "rw": [], "norule": [],
                           "probe": "exit", "cfg": None, "contract": [], "loops": {}, "body": [], "at": [], "after": [], "ret": "r", "owner": "self", "features": "std std_io hashmap unstable", "heap": None, "values": "V", "assumed": False}
                    sect = cur["contract"]
                else:
                    self.parts.append(l)
                continue
            if st == "//@end":
                self.parts.append(cur)
                cur = None
                continue
            m = re.match(r"//@loop\s+(\d+)$", st)
            if m:
                sect = cur["loops"].setdefault(int(m.group(1)), [])
                continue
            if st == "//@body":
                sect = cur["body"]
                continue
            m = re.match(r"//@(at|after)\s+/(.*)/$", st)
            if m:
                sect = []
                cur[m.group(1)].append((m.group(2), sect))
                continue
            m = re.match(r"//@\s+(sig|rw)\s+/(.*)/\s*=>\s?(.*)$", st)
            if m:
                cur[m.group(1)].append((m.group(2), m.group(3)))
                continue
            m = re.match(r"//@\s+(as|probe|cfg|norule|ret|owner|features|heap|values)\s+(.*)$", st)
            if m:
                if m.group(1) == "norule":
                    cur["norule"].append(m.group(2).strip())
                else:
                    cur[m.group(1)] = m.group(2).strip()
                continue
            if st.startswith("//@"):
                raise ValueError("bad directive in %s: %s" % (self.name, st))
            sect.append(l)

    def fns(self):
        return [p for p in self.parts if isinstance(p, dict) and not p["assumed"]]

    def emit_fn(self, p, quarantine, probe):
        """Returns the lines for one extracted function."""
        f = lookup(p["file"], p["impl"], p["fn"], p["cfg"])
        p["text"] = R.norm(f.text())
        sig, body = f.sig, f.body
        for q in self.fns():  # a function within this one that is under contract by itself
            if q["impl"] == "fn " + p["fn"] and q["file"] == p["file"]:
                g = lookup(q["file"], q["impl"], q["fn"], q["cfg"])
                body = re.sub(re.escape(g.sig) + r"\s*" + re.escape(g.body), "", body, count=1)
        for a, b in SIG_DROP:
            sig = re.sub(a, b, sig)
        body = cfgs(body, p["features"].split())
        sig, body = paths(sig), paths(body)
        for a, b in p["sig"]:
            sig, n = re.subn(a, b, sig, flags=re.S)
        p["closures"] = False
        body = body.strip()
        for a, b in p["rw"]:
            body, n = re.subn(a, b, body, flags=re.S)
        for n, r in RULES.items():
            if n not in p["norule"]:
                body = r(body)
        if self.threads:
            body = node_memory(body, "m" if p["heap"] == "mem" else None)
            body = re.sub(r"\broot:\s*[^,{}]*,", "", body) if "NodeRef {" in body else body
            body = range_end(thread(body, self.threads) if p["heap"] != "mem" else body)
            k = R.match_close(sig, self.params(sig))
            t = sig[self.params(sig) + 1:k].rstrip()
            ty = {"mut": "h: &mut Heap<K, V>", "ref": "h: &Heap<K, V>", "mem": "m: &mut Mem<T>", None: "", "none": ""}[p["heap"]].replace("<K, V>", "<K, %s>" % p["values"])
            if ty:
                sig = sig[:k] + ("" if not t else " " if t.endswith(",") else ", ") + ty + sig[k:]
        else:
            body = pointers(body, p["owner"])
        # by-value parameters declared `mut` become mutable locals
        k0 = self.params(sig)
        k1 = R.match_close(sig, k0)
        ps = sig[k0:k1]
        lets = ""
        if re.match(r"\(\s*mut\s+self\b", ps):
            ps = re.sub(r"\bmut\s+self\b", "self", ps, count=1)
            body = re.sub(r"\bself\b", "vx_self", body)
            lets += " let mut vx_self = self;"
        for m in re.finditer(r"(?<![&\w])\bmut\s+(\w+)\s*:", ps):
            lets += " let mut %s = %s;" % (m.group(1), m.group(1))
        ps = re.sub(r"(?<![&\w])\bmut\s+(\w+)\s*:", r"\1:", ps)
        sig = sig[:k0] + ps + sig[k1:]
        if lets:
            body = "{" + lets + body[1:]
        p["closures"] = bool(re.search(r"(?<!\|)\|(?!\|)[\w\s,&:_()]*\|(?!\|)", body))
        if p["as"]:
            sig = re.sub(r"\bfn\s+" + re.escape(p["fn"]) + r"\b", "fn " + p["as"], sig, count=1)
        # name the result
        k = self.arrow(sig)
        if k is not None:
            w = R.find_top(sig, k, "")  # unused
            m = re.search(r"\bwhere\b", sig[k:])
            end = k + m.start() if m else len(sig)
            ty = sig[k + 2:end].strip()
            sig = sig[:k] + "-> (%s: %s) " % (p["ret"], ty) + sig[end:]
        loops = R.loops(body)
        p["nloops"] = len(loops)
        ins = []  # (position, text)
        if not quarantine and probe != "entry" and probe != "exit":
            pass
        if not quarantine:
            want = p["loops"]
            if len(loops) != len(want):
                raise Lost("%s: the contract expects %d loops, the code has %d" % (p["fn"], len(want), len(loops)))
            for i, (a, k, kw) in enumerate(loops):
                ins.append((k, "\n" + "\n".join(want[i]) + "\n    "))
                if probe and p["probe"] == "loop" and i == 0:
                    ins.append((k + 1, " assert(false); "))
                if kw == "for":
                    m = re.compile(r"for\s+(\w+|\([^)]*\)|&\w+)\s+in\s+").match(body, a)
                    if m:
                        ins.append((m.end(), "vx_it%d: " % i))
            for rx, t in p["at"]:
                m = re.search(rx, body, re.S)
                if not m:
                    p["missing"] = p.get("missing", 0) + 1  # the proof has to go through without it
                    continue
                ins.append((m.start(), "\n" + "\n".join(t) + "\n"))
            for rx, t in p["after"]:
                m = re.search(rx, body, re.S)
                if not m:
                    p["missing"] = p.get("missing", 0) + 1  # the proof has to go through without it
                    continue
                ins.append((m.end(), "\n" + "\n".join(t) + "\n"))
            for pos, t in sorted(ins, key=lambda x: -x[0]):
                body = body[:pos] + t + body[pos:]
            if p["body"]:
                body = "{\n" + "\n".join(p["body"]) + "\n" + body[1:]
        out = []
        if quarantine:
            out.append("#[verifier::external_body]")
            body = "{ unimplemented!() }"
        elif probe and p["probe"] == "exit":
            m = re.match(r"\{\s*((?:hide\(\w+\);\s*)+)", body)
            head = m.group(1) if m else ""
            if m:
                body = "{" + body[m.end():]
            body = "{ " + head + " let vx_probe = " + body + ";\nassert(false);\nvx_probe }"
        elif probe and p["probe"] == "entry":
            body = "{ assert(false); " + body[1:]
        out += sig.splitlines() + p["contract"] + body.splitlines()
        return out

    @staticmethod
    def params(sig):
        """Position of the parameter list."""
        m = re.search(r"\bfn\s+\w+\s*", sig)
        i = m.end()
        if i < len(sig) and sig[i] == "<":
            d = 0
            while i < len(sig):
                if sig[i] == "<":
                    d += 1
                elif sig[i] == ">" and sig[i - 1] != "-":
                    d -= 1
                    if d == 0:
                        i += 1
                        break
                i += 1
        return sig.index("(", i)

    @staticmethod
    def arrow(sig):
        """Position of the `->` of the function itself (after its parameter list)."""
        m = re.search(r"\bfn\s+\w+\s*", sig)
        i = m.end()
        if i < len(sig) and sig[i] == "<":
            d = 0
            while i < len(sig):
                if sig[i] == "<":
                    d += 1
                elif sig[i] == ">" and sig[i - 1] != "-":
                    d -= 1
                    if d == 0:
                        i += 1
                        break
                i += 1
        i = sig.index("(", i)
        i = R.match_close(sig, i) + 1
        k = sig.find("->", i)
        w = re.search(r"\bwhere\b", sig[i:])
        if k < 0 or (w and i + w.start() < k):
            return None
        return k

    def generate(self, quarantined, probe=False):
        lines, spans = [], []
        for p in self.parts:
            if isinstance(p, str):
                if probe and p == "//@seamprobe":
                    p = "proof { assert(false); } " + p
                lines.append(p)
                continue
            a = len(lines) + 1
            lines += self.emit_fn(p, p["assumed"] or id(p) in quarantined, probe and not p["assumed"])
            if not p["assumed"]:
                spans.append((a, len(lines), p))
        end = max(i for i, x in enumerate(lines) if x == "}")
        text = "\n".join(lines)
        lines[end:end] = [l for name, body in STD_MODULES.items() if not re.search(r"\bmod %s\b" % name, text) for l in body.splitlines()]
        return lines, spans


# free functions of the standard library that changed code may use in any unit
STD_MODULES = {"mem": """mod mem {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace<T>(a: &mut T, b: T) -> (r: T) ensures *final(a) == b, r == *old(a) { unimplemented!() }
}""", "ptr": """mod ptr {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn eq<T>(a: &T, b: &T) -> (r: bool) ensures r ==> *a == *b { unimplemented!() }
}"""}


VERUS = "verus"


def run_verus(path, extra=(), timeout=300):
    rc, o, r = sh([VERUS, path, "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "4", "--multiple-errors", "10", *extra], cwd=os.path.dirname(path), timeout=timeout)
    try:
        j = json.loads(o)
    except ValueError:
        j = None
    diags = []
    for l in r.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if isinstance(d, dict) and d.get("level") in ("error", "warning", "note"):
            diags.append(d)
    return rc, j, diags, r


def all_spans(d):
    out = list(d.get("spans", []))
    for c in d.get("children", []):
        out += c.get("spans", [])
    return out


def tags(line):
    m = re.search(r"//\s*\[([C0-9 ]+)\]", line)
    return m.group(1).split() if m else None


VERIFIER_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic",
                 "decreases not satisfied", "could not prove termination", "possible division by zero", "recommendation not met", "unwinding",
                 "possible bit shift", "constructed value may fail", "precondition not", "unreachable", "cannot show", "loop invariant", "open_invariant", "failed")
TIMEOUT_MSGS = ("Resource limit", "rlimit", "timed out", "timeout")


def load_pins():
    return json.load(open(PINS)) if os.path.exists(PINS) else {}


def key(unit, p):
    return "%s:%s:%s:%s" % (unit.name, p["file"], R.norm(p["impl"]), p["as"] or p["fn"])


def self_type(header):
    """The name of the type an impl is for (or of the trait, for a trait's own methods)."""
    h = re.sub(r"\bwhere\b.*", "", header, flags=re.S).strip()
    m = re.match(r"(?:unsafe\s+)?(?:default\s+)?impl\b", h)
    if not m:
        m = re.search(r"\btrait\s+(\w+)", h)
        return m.group(1) if m else h
    h = h[m.end():].strip()
    if h.startswith("<"):
        d = 0
        for i, c in enumerate(h):
            d += c == "<"
            d -= c == ">" and h[i - 1] != "-"
            if d == 0:
                h = h[i + 1:].strip()
                break
    m = re.search(r"\bfor\s+(?!<)", h)
    h = h[m.end():] if m else h
    h = re.sub(r"^&\s*('\w+\s*)?(mut\s+)?", "", h.strip())
    m = re.match(r"[\w:]+", h)
    return m.group(0).split("::")[-1] if m else h


def outside():
    """What no contract covers: {file: {name: (hash, self type)}} of the functions, macros and derives."""
    cov = {(p["file"], R.norm(p["impl"]), p["fn"]) for n in units() for p in Unit(n).fns()}
    out = {}
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), REPO)
            if not rel.endswith(".rs"):
                continue
            d = out.setdefault(rel, {})
            for it in repo_items(rel):
                if "#[test]" in it.attrs or (rel, R.norm(it.impl), it.name) in cov:
                    continue
                k = "%s::%s" % (R.norm(it.impl), it.name)
                d[k] = (hashlib.sha256((d[k][0] if k in d else "").encode() + R.norm(it.sig + it.body).encode()).hexdigest(), self_type(it.impl))
            t = R.strip_comments(read(os.path.join(REPO, rel)))
            for m in re.finditer(r"\bmacro_rules!\s*(\w+)\s*\{", t):
                d["macro %s" % m.group(1)] = (hashlib.sha256(R.norm(t[m.start():R.match_close(t, m.end() - 1)]).encode()).hexdigest(), "")
            for m in re.finditer(DERIVE, t):
                d["derives of %s" % m.group(2)] = (hashlib.sha256(R.norm(m.group(1)).encode()).hexdigest(), m.group(2))
    return out


def strangers(prop):
    """Functions, macros and derives without a contract that are new or changed and may bear on a property."""
    known = load_pins().get("outside", {})
    fns = [p for n in units() for p in Unit(n).fns()]
    out = []
    for rel, d in sorted(outside().items()):
        for k, (h, ty) in sorted(d.items()):
            if known.get(rel, {}).get(k) == h:
                continue
            near = [p for p in fns if p["file"] == rel and self_type(p["impl"]) == ty] or [p for p in fns if p["file"] == rel]
            props = {x for p in near for x in p["props"]} | ({"C20"} if k.endswith("::fmt") else set())
            if not near or prop in props:
                out.append((rel, k, "new" if k not in known.get(rel, {}) else "changed"))
    return out


def label(unit, p):
    return "%s %s%s" % (p["file"], ("<" + re.sub(r"\s+", " ", p["impl"]) + ">::" if p["impl"] else ""), p["fn"] + (" (%s)" % p["as"] if p["as"] and p["as"].startswith("vx_") else ""))


def prove_unit(name, probes=True):
    """Verifies one unit. Returns a dictionary: functions -> {status, clauses, seconds, ...}."""
    t0 = time.time()
    u = Unit(name)
    d = os.path.join(BUILD, "verus")
    os.makedirs(d, exist_ok=True)
    pins = load_pins()
    quarantined = {}
    results = {}
    if u.lost:
        return {"unit": name, "fns": {label(u, p): {"status": "undecided", "detail": "; ".join(u.lost), "props": p["props"], "seconds": 0, "clauses": 0} for p in u.fns()},
                "seconds": time.time() - t0, "lemmas": 0, "probes": 0, "notes": u.lost, "cmd": "", "extra": 0}
    for p in u.fns():
        try:
            u.emit_fn(p, False, False)
        except Lost as e:
            quarantined[id(p)] = str(e)
        except Exception as e:
            quarantined[id(p)] = "could not be extracted: %s" % e
    notes = []
    pool = ThreadPoolExecutor(1)
    early = None
    if probes:
        # the probes run next to the proofs, on the guess that no more functions have to be set aside
        try:
            pl, ps = u.generate(quarantined, probe=True)
            ppath = os.path.join(d, name + "_probe.rs")
            write_if_changed(ppath, "\n".join(pl) + "\n")
            early = (set(quarantined), pl, ps, pool.submit(run_verus, ppath))
        except Lost:
            early = None
    for attempt in range(40):
        try:
            live = [p for p in u.parts]
            lines, spans = u.generate(quarantined)
        except Lost as e:
            # even its signature is gone: drop the whole unit
            return {"unit": name, "fns": {label(u, p): {"status": "undecided", "detail": str(e), "props": p["props"], "seconds": 0, "clauses": 0} for p in u.fns()},
                    "seconds": time.time() - t0, "lemmas": 0, "probes": 0, "notes": [str(e)], "cmd": "", "extra": 0}
        path = os.path.join(d, name + ".rs")
        write_if_changed(path, "\n".join(lines) + "\n")
        rc, j, diags, raw = run_verus(path)
        errs = [x for x in diags if x["level"] == "error"]
        vir_bad = j is None or j["verification-results"].get("encountered-vir-error") or "func-details" not in j or (not j["verification-results"].get("verified") and not any(is_verif(x) for x in errs) and errs)
        if not vir_bad:
            break
        # a construct outside the dialect, or code that no longer fits: set the function aside
        hit = False
        for x in errs:
            for s in all_spans(x):
                for a, b, p in spans:
                    if a <= s["line_start"] <= b and id(p) not in quarantined:
                        quarantined[id(p)] = "outside the verifier's reach: " + x["message"][:300]
                        hit = True
        if not hit:
            msg = "; ".join(x["message"] for x in errs)[:600] or raw[-600:]
            return {"unit": name, "fns": {label(u, p): {"status": "undecided", "detail": "the unit does not verify as a whole: " + msg, "props": p["props"], "seconds": 0, "clauses": 0} for p in u.fns()},
                    "seconds": time.time() - t0, "lemmas": 0, "probes": 0, "notes": [msg], "cmd": "", "extra": 0}
    fails = {}
    stray = []
    for x in errs:
        if x["message"].startswith("aborting"):
            continue
        own = None
        cl = None
        where = []
        for s in all_spans(x):
            t = tags(lines[s["line_start"] - 1]) if s["file_name"].endswith(name + ".rs") and s["line_start"] <= len(lines) else None
            if t and cl is None:
                cl = t
            where.append("%s: %s" % (s.get("label") or "", " ".join(z["text"].strip() for z in s.get("text", []))[:300]))
            for a, b, p in spans:
                if s["file_name"].endswith(name + ".rs") and a <= s["line_start"] <= b:
                    if own is None or "end of the function body" in (s.get("label") or "") or s.get("is_primary") and own is None:
                        own = p
        # the body that fails is the function whose span holds the use, not the clause
        for s in all_spans(x):
            lab = s.get("label") or ""
            for a, b, p in spans:
                if a <= s["line_start"] <= b and ("failed this postcondition" not in lab) and ("failed precondition" not in lab):
                    own = p
        kind = "timeout" if any(t in x["message"] for t in TIMEOUT_MSGS) else "fail"
        if own is None:
            stray.append(x["message"] + " " + "; ".join(where))
            continue
        fails.setdefault(id(own), []).append((kind, x["message"], cl, "; ".join(where)))
    times = {}
    ok = {}
    try:
        for m in j["times-ms"]["smt"]["smt-run-module-times"]:
            for fb in m.get("function-breakdown", []):
                times[fb["function"]] = times.get(fb["function"], 0) + fb["time-micros"] / 1e6
                ok[fb["function"]] = ok.get(fb["function"], True) and fb["success"]
    except KeyError:
        pass
    fnames = {}
    for p in u.fns():
        nm = p["as"] or p["fn"]
        t = sum(v for k, v in times.items() if k.split("::")[-1] == nm)
        lab = label(u, p)
        res = {"props": p["props"], "seconds": round(t, 3), "clauses": sum(1 for l in p["contract"] if l.strip() and not l.strip().startswith("//")), "as": nm}
        changed = pins.get(key(u, p)) not in (None, hashlib.sha256(p.get("text", "").encode()).hexdigest())
        hinted = bool(p["loops"] or p["at"] or p["after"] or p["body"])
        if id(p) in quarantined:
            res.update(status="undecided", detail=quarantined[id(p)])
        elif id(p) in fails:
            fl = fails[id(p)]
            det = "\n".join("%s%s: %s" % (m, " [" + " ".join(c) + "]" if c else "", w) for _, m, c, w in fl)
            if all(k == "timeout" for k, _, _, _ in fl):
                res.update(status="undecided", detail="the solver gave up: " + det)
            elif changed and (hinted or p["closures"]):
                res.update(status="undecided", detail="changed, and its loop invariants or hints no longer fit: " + det)
            else:
                res.update(status="failed", detail=det, fail_props=sorted({q for _, _, c, _ in fl for q in (c or p["props"])}))
        else:
            res.update(status="discharged")
        res["changed"] = changed
        fnames[lab] = res
    nprobe, vac = 0, []
    if probes:
        if early and early[0] == set(quarantined):
            pl, ps = early[1], early[2]
            rc2, j2, di2, raw2 = early[3].result()
        else:
            pl, ps = u.generate(quarantined, probe=True)
            ppath = os.path.join(d, name + "_probe2.rs")
            write_if_changed(ppath, "\n".join(pl) + "\n")
            rc2, j2, di2, raw2 = run_verus(ppath)
        bad = set()
        for x in di2:
            if x["level"] != "error":
                continue
            for s in all_spans(x):
                for a, b, p in ps:
                    if a <= s["line_start"] <= b and "assertion failed" in x["message"] and "assert(false)" in pl[s["line_start"] - 1]:
                        bad.add(id(p))
        for p in u.fns():
            if id(p) in quarantined or p["probe"] == "none":
                continue
            nprobe += 1
            if id(p) not in bad and id(p) not in fails:
                vac.append(label(u, p))
                fnames[label(u, p)].update(status="undecided", detail="vacuous: `assert(false)` is accepted at its %s" % p["probe"])
        # the bodies given to a model's functions
        seen = {s["line_start"] for x in di2 if x["level"] == "error" and "assertion failed" in x["message"] for s in all_spans(x)}
        for i, l in enumerate(pl):
            if l.endswith("//@seamprobe"):
                nprobe += 1
                if i + 1 not in seen and not stray:
                    stray.append("vacuous: `assert(false)` is accepted at entry to: " + next(x for x in reversed(pl[:i]) if re.search(r"\bfn ", x)).strip())
    lem = j["verification-results"]["verified"] if j else 0
    return {"unit": name, "fns": fnames, "seconds": time.time() - t0, "smt": sum(times.values()), "verified": lem, "errors": j["verification-results"]["errors"] if j else None,
            "probes": nprobe, "notes": stray, "cmd": "verus build/verus/%s.rs --output-json --time-expanded --error-format=json" % name}


def is_verif(x):
    return any(m in x["message"] for m in VERIFIER_MSGS) or any(m in x["message"] for m in TIMEOUT_MSGS)


def units():
    return sorted(n[:-3] for n in os.listdir(UNITS) if n.endswith(".rs"))


if __name__ == "__main__":
    import sys
    if sys.argv[1] == "pin":
        pins = {}
        for n in units():
            u = Unit(n)
            for p in u.fns():
                u.emit_fn(p, True, False)
                pins[key(u, p)] = hashlib.sha256(p["text"].encode()).hexdigest()
        pins["outside"] = {f: {k: h for k, (h, _) in d.items()} for f, d in outside().items()}
        json.dump(pins, open(PINS, "w"), indent=0, sort_keys=True)
    else:
        r = prove_unit(sys.argv[1], probes="--noprobe" not in sys.argv)
        bad = 0
        seen = set()
        if r.get("verified") is None:
            sys.exit("UNIT FAILED: %s" % r["notes"])
        for f, v in r["fns"].items():
            if v["status"] != "discharged":
                bad += 1
                dt = v.get("detail", "")[:1500]
                print("==", f, v["status"], "" if dt in seen else "\n   " + dt)
                seen.add(dt)
        print("stray:", r["notes"])
        print(r["unit"], "fns", len(r["fns"]), "bad", bad, "verified", r.get("verified"), "errors", r.get("errors"), "probes", r["probes"], "%.1f s" % r["seconds"], "smt %.2f" % r.get("smt", 0))
