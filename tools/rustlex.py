"""A small scanner of Rust source: comments, literals, bracket matching, items."""
import re

OPEN, CLOSE = "([{", ")]}"
MATCH = {"(": ")", "[": "]", "{": "}"}


def skip_literal(s, i):
    """If a literal starts at i, the index after it, else i."""
    c = s[i]
    m = re.compile(r'b?r(#*)"').match(s, i)
    if m and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
        e = s.find('"' + m.group(1), m.end())
        return len(s) if e < 0 else e + 1 + len(m.group(1))
    if c == '"':
        j = i + 1
        while j < len(s) and s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        return j + 1
    if c == "'":
        m = re.compile(r"'(\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'").match(s, i)
        if m:
            return m.end()
        return i + 1  # a lifetime
    return i


def strip_comments(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = len(s) if j < 0 else j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while j < len(s) and d:
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            out.append(" ")
            i = j
        else:
            j = skip_literal(s, i)
            if j == i:
                j = i + 1
            out.append(s[i:j])
            i = j
    return "".join(out)


def match_close(s, i):
    """Index of the bracket closing the one at i (comments already stripped)."""
    d = 0
    while i < len(s):
        c = s[i]
        if c in OPEN:
            d += 1
        elif c in CLOSE:
            d -= 1
            if d == 0:
                return i
        elif c in "\"'br":
            j = skip_literal(s, i)
            if j > i:
                i = j
                continue
        i += 1
    raise ValueError("unbalanced")


def find_top(s, i, stop):
    """First index >= i at bracket depth 0 whose character is in stop."""
    while i < len(s):
        c = s[i]
        if c in stop:
            return i
        if c in OPEN:
            i = match_close(s, i) + 1
            continue
        if c in CLOSE:
            return -1
        if c in "\"'br":
            j = skip_literal(s, i)
            if j > i:
                i = j
                continue
        i += 1
    return -1


def norm(s):
    return re.sub(r"\s+", "", s)


class Fn:
    def __init__(self, file, impl, name, attrs, sig, body):
        self.file, self.impl, self.name, self.attrs, self.sig, self.body = file, impl, name, attrs, sig, body

    def text(self):
        return self.sig + self.body


ITEM = re.compile(r"\b(impl|trait|mod|fn|macro_rules)\b")


def expand(s):
    """Invocations of a macro of the form `($($x: ty),*) => { $( item )* }` -> the items they stand for."""
    for m in list(re.finditer(r"\bmacro_rules!\s*(\w+)\s*\{", s)):
        e = match_close(s, m.end() - 1)
        d = re.fullmatch(r"\s*\(\s*\$\(\s*\$(\w+)\s*:\s*ty\s*\)\s*,\s*\*\s*\)\s*=>\s*\{\s*\$\((.*)\)\s*\*\s*\}\s*;?\s*", s[m.end():e], re.S)
        if not d:
            continue
        for c in reversed(list(re.finditer(r"(?<![\w!])%s!\s*\(([^()]*)\)\s*;" % m.group(1), s))):
            tys = [t.strip() for t in c.group(1).split(",") if t.strip()]
            s = s[:c.start()] + "".join(re.sub(r"\$%s\b" % d.group(1), t, d.group(2)) + "\n" for t in tys) + s[c.end():]
    return s


def items(src, file):
    """All functions of a source text, with the header of the impl, trait or module around each."""
    s = expand(strip_comments(src))
    out = []

    def walk(a, b, ctx):
        i = a
        last = a  # end of the previous item, for the attributes
        while i < b:
            c = s[i]
            if c in "\"'br":
                j = skip_literal(s, i)
                if j > i:
                    i = j
                    continue
            if c == "#" and i + 1 < b and s[i + 1] == "[":
                i = match_close(s, i + 1) + 1
                continue
            if c in "([{":
                i = match_close(s, i) + 1
                last = i
                continue
            if c == ";":
                last = i + 1
                i += 1
                continue
            m = ITEM.match(s, i)
            if not m or (i > 0 and (s[i - 1].isalnum() or s[i - 1] in "_$")):
                i += 1
                continue
            kw = m.group(1)
            head = s[last:i]
            attrs = "".join(re.findall(r"#\[[^\n]*\]", head))
            if kw == "macro_rules":
                k = find_top(s, m.end(), "{")
                i = match_close(s, k) + 1
                last = i
                continue
            if kw == "fn":
                k = find_top(s, m.end(), "{;")
                # a where clause or a return type may hold no braces in this crate
                if k < 0 or s[k] == ";":
                    i = (k if k >= 0 else b) + 1
                    last = i
                    continue
                e = match_close(s, k)
                name = re.match(r"fn\s+(\w+)", s[i:]).group(1)
                quals = re.sub(r"#\[[^\n]*\]", "", head).strip()
                out.append(Fn(file, ctx, name, attrs, (quals + " " if quals else "") + s[i:k].strip(), s[k:e + 1]))
                if re.search(r"\bfn\s+\w", s[k:e]):
                    walk(k + 1, e, "fn " + name)  # functions within the function
                i = e + 1
                last = i
                continue
            k = find_top(s, m.end(), "{;")
            if k < 0:
                i = m.end()
                continue
            if s[k] == ";":
                i = k + 1
                last = i
                continue
            e = match_close(s, k)
            header = re.sub(r"#\[[^\n\[\]]*(\[[^\n\[\]]*\][^\n\[\]]*)*\]\s*", "", s[last:k]).strip()
            if not (kw == "mod" and "cfg(test)" in attrs):
                walk(k + 1, e, ctx if kw == "mod" else header)
            i = e + 1
            last = i

    walk(0, len(s), "")
    return out


def loops(body):
    """[(keyword index, index of the opening brace, keyword)] of the loops of a body, in order of appearance."""
    out, i = [], 0
    while i < len(body):
        if body[i] in "\"'br":
            j = skip_literal(body, i)
            if j > i:
                i = j
                continue
        m = re.compile(r"(while|for|loop)\b").match(body, i)
        if m and not (i > 0 and (body[i - 1].isalnum() or body[i - 1] in "_.")):
            if m.group(1) == "for" and re.compile(r"for\s*<").match(body, i):
                i = m.end()
                continue
            k = find_top(body, m.end(), "{")
            if k > 0:
                out.append((i, k, m.group(1)))
            i = m.end()
            continue
        i += 1
    return out


def receiver_start(s, dot):
    """Start of the postfix expression that ends just before the '.' at index dot."""
    i = dot
    while True:
        j = i - 1
        while j >= 0 and s[j].isspace():
            j -= 1
        if j < 0:
            return i
        c = s[j]
        if c in ")]}":
            # back over a balanced group
            d, k = 0, j
            while k >= 0:
                if s[k] in CLOSE:
                    d += 1
                elif s[k] in OPEN:
                    d -= 1
                    if d == 0:
                        break
                k -= 1
            i = k
            if c == "}":
                return i
            continue
        if c == "?" or c == ".":
            i = j
            continue
        if c == ":" and j > 0 and s[j - 1] == ":":
            i = j - 1
            continue
        if c.isalnum() or c == "_":
            k = j
            while k >= 0 and (s[k].isalnum() or s[k] == "_"):
                k -= 1
            w = s[k + 1:j + 1]
            if w in ("return", "if", "match", "let", "in", "mut", "while", "else", "move", "break"):
                return i
            # an identifier begins the expression unless a '.', '::' or '?' comes before it
            p = k
            while p >= 0 and s[p].isspace():
                p -= 1
            i = k + 1
            if p >= 0 and (s[p] == "." or (s[p] == ":" and p > 0 and s[p - 1] == ":")):
                continue
            return i
        return i
