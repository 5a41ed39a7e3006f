"""A small Rust lexer and item parser.

Only what mechanical extraction needs: tokens with byte offsets, bracket
matching, items (fn/struct/enum/trait/impl/const/static/type/use/mod/macro),
and, inside a fn, its parameters, return type, body and loops in source order.
"""
import re


class LexError(Exception):
    pass


class Tok:
    __slots__ = ("k", "s", "a", "b", "m")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b, self.m = k, s, a, b, None

    def __repr__(self):
        return f"{self.k}:{self.s!r}@{self.a}"


ID = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"[0-9](?:[0-9A-Za-z_]|\.(?=[0-9])|(?<=[eE])[+-])*")
PUNCT3 = ("<<=", ">>=", "...", "..=")
PUNCT2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=",
          "^=", "&=", "|=", "<<", ">>", "..")


def lex(src):
    """Return the list of tokens (comments and whitespace dropped)."""
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            out.append(Tok("comment", src[i:j], i, j))
            i = j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            if depth:
                raise LexError("unterminated block comment")
            out.append(Tok("comment", src[i:j], i, j))
            i = j
            continue
        m = re.compile(r"(?:br|cr|r)(#*)\"").match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0:
                raise LexError("unterminated raw string")
            j += len(end)
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == '"' or (c in "bc" and i + 1 < n and src[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == "'" or (c == "b" and i + 1 < n and src[i + 1] == "'"):
            k = i + (1 if c == "'" else 2)
            m = re.compile(r"(\\x[0-9a-fA-F]{2}|\\u\{[^}]*\}|\\.|[^\\'])'").match(src, k)
            if m:
                out.append(Tok("chr", src[i:m.end()], i, m.end()))
                i = m.end()
                continue
            m = ID.match(src, k)
            if not m:
                raise LexError(f"bad quote at {i}")
            out.append(Tok("life", src[i:m.end()], i, m.end()))
            i = m.end()
            continue
        m = ID.match(src, i)
        if m:
            out.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            out.append(Tok("num", m.group(0), i, m.end()))
            i = m.end()
            continue
        for p in PUNCT3:
            if src.startswith(p, i):
                break
        else:
            for p in PUNCT2:
                if src.startswith(p, i):
                    break
            else:
                p = c
        out.append(Tok("p", p, i, i + len(p)))
        i += len(p)
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}


def code_tokens(src):
    toks = [t for t in lex(src) if t.k != "comment"]
    st = []
    for i, t in enumerate(toks):
        if t.k == "p":
            if t.s in OPEN:
                st.append(i)
            elif t.s in ")]}":
                if not st:
                    raise LexError("unbalanced")
                j = st.pop()
                if OPEN[toks[j].s] != t.s:
                    raise LexError("mismatched brackets")
                toks[j].m, t.m = i, j
    if st:
        raise LexError("unclosed bracket")
    return toks


class Item:
    """kind, name (or normalised impl header), byte range, fns for impl/trait."""

    def __init__(self, kind, name, a, b, body=None):
        self.kind, self.name, self.a, self.b, self.body = kind, name, a, b, body
        self.fns = []
        self.cfg_test = False
        self.attr_a = a

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


class Fn:
    def __init__(self):
        self.name = None
        self.params = []
        self.has_self = False
        self.loops = []


def norm(toks):
    return " ".join(t.s for t in toks)


MODS = {"pub", "const", "unsafe", "async", "extern", "default"}


def skip_generics(toks, i):
    """toks[i] is '<': index just past the matching '>'."""
    d = 0
    while i < len(toks):
        s = toks[i].s
        if toks[i].k == "p":
            if s == "<":
                d += 1
            elif s == ">":
                d -= 1
            elif s == "<<":
                d += 2
            elif s == ">>":
                d -= 2
            elif s in ("(", "[", "{"):
                i = toks[i].m
        i += 1
        if d <= 0:
            return i
    raise LexError("generics")


def parse_fn(toks, i, start):
    """toks[i] is `fn`; start is the index of its first modifier token."""
    f = Fn()
    f.tok_start = start
    f.a = toks[start].a
    f.fn_kw = i
    f.name = toks[i + 1].s
    j = i + 2
    if toks[j].s == "<":
        j = skip_generics(toks, j)
    assert toks[j].s == "(", f"fn {f.name}"
    close = toks[j].m
    # parameters
    k, cur, depth, groups = j + 1, [], 0, []
    while k < close:
        t = toks[k]
        if t.s in OPEN and t.k == "p":
            cur.extend(toks[k:t.m + 1])
            k = t.m + 1
            continue
        if t.k == "p" and t.s == "<":
            depth += 1
        elif t.k == "p" and t.s == ">":
            depth -= 1
        elif t.k == "p" and t.s == ">>":
            depth -= 2
        if t.k == "p" and t.s == "," and depth <= 0:
            groups.append(cur)
            cur = []
        else:
            cur.append(t)
        k += 1
    if cur:
        groups.append(cur)
    for g in groups:
        # drop attributes
        while g and g[0].s == "#":
            d = 0
            q = 1
            while q < len(g):
                if g[q].s == "[":
                    d += 1
                elif g[q].s == "]":
                    d -= 1
                    if d == 0:
                        break
                q += 1
            g = g[q + 1:]
        names = [t.s for t in g]
        if "self" in names[: 4] and ":" not in names[: names.index("self")]:
            f.has_self = True
            continue
        c = names.index(":")
        pat = [t for t in g[:c] if t.s not in ("mut", "ref")]
        f.params.append(pat[0].s if len(pat) == 1 else norm(pat))
    f.params_end = toks[close].b
    k = close + 1
    f.ret = None
    if toks[k].s == "->":
        ra = k + 1
        q = ra
        while not (toks[q].k == "p" and toks[q].s in ("{", ";")) and toks[q].s != "where":
            if toks[q].k == "p" and toks[q].s in ("(", "["):
                q = toks[q].m
            q += 1
        f.ret = (toks[ra].a, toks[q - 1].b)
        k = q
    while not (toks[k].k == "p" and toks[k].s in ("{", ";")):
        if toks[k].k == "p" and toks[k].s in ("(", "["):
            k = toks[k].m
        k += 1
    f.sig_end = toks[k - 1].b          # text up to here is the signature
    if toks[k].s == ";":
        f.body = None
        f.b = toks[k].b
        f.tok_end = k + 1
    else:
        f.body = (toks[k].a, toks[toks[k].m].b)
        f.b = f.body[1]
        f.body_toks = (k, toks[k].m)
        f.tok_end = toks[k].m + 1
        f.loops = find_loops(toks, k + 1, toks[k].m)
        f.tail = has_tail(toks, k, toks[k].m)
    return f


def find_loops(toks, a, b):
    """Loops in source order: (keyword, in_expr_offset_or_None, body_open, body_close)."""
    out = []
    i = a
    while i < b:
        t = toks[i]
        if t.k == "id" and t.s in ("while", "for", "loop") and not (
                t.s == "for" and toks[i + 1].s == "<"):
            j = i + 1
            inpos = None
            while not (toks[j].k == "p" and toks[j].s == "{"):
                if toks[j].k == "p" and toks[j].s in ("(", "["):
                    j = toks[j].m
                elif t.s == "for" and inpos is None and toks[j].s == "in":
                    inpos = toks[j].b
                j += 1
            out.append({"kw": t.s, "a": t.a, "in": inpos, "open": toks[j].a, "close": toks[toks[j].m].a})
            i = j + 1
            continue
        i += 1
    return out


def has_tail(toks, o, c):
    """Does the block end in an expression (not a statement)?"""
    if c == o + 1:
        return False
    last = toks[c - 1]
    if last.s == ";":
        return False
    if last.s != "}":
        return True
    # ends in a block: a tail value only if some branch of it ends in an expression;
    # decide by the last block's own tail (if/else, match, unsafe, plain block).
    return None


def parse_items(src, toks=None, a=0, b=None):
    toks = toks or code_tokens(src)
    b = len(toks) if b is None else b
    items = []
    i = a
    while i < b:
        attr_start = i
        cfg_test = False
        while toks[i].s == "#":
            j = i + 1
            if toks[j].s == "!":
                j += 1
            e = toks[j].m
            txt = norm(toks[j + 1:e])
            if txt.replace(" ", "") in ("cfg(test)", "test") or txt.replace(" ", "").startswith("cfg(all(test"):
                cfg_test = True
            i = e + 1
            if i >= b:
                return items
        start = i
        j = i
        while toks[j].s in MODS:
            if toks[j].s == "const" and toks[j + 1].k == "id" and toks[j + 1].s not in ("fn", "unsafe", "extern", "async"):
                break
            if toks[j].s == "pub" and toks[j + 1].s == "(":
                j = toks[j + 1].m
            if toks[j].s == "extern" and toks[j + 1].k == "str":
                j += 1
            j += 1
        kw = toks[j].s
        if kw == "fn":
            f = parse_fn(toks, j, start)
            it = Item("fn", f.name, toks[start].a, f.b)
            it.fns = [f]
            i = f.tok_end
        elif kw in ("struct", "enum", "union", "trait", "mod") or (kw == "unsafe"):
            name = toks[j + 1].s
            k = j + 2
            while not (toks[k].k == "p" and toks[k].s in ("{", ";")):
                if toks[k].k == "p" and toks[k].s in ("(", "["):
                    k = toks[k].m
                k += 1
            end = k if toks[k].s == ";" else toks[k].m
            it = Item(kw, name, toks[start].a, toks[end].b)
            if toks[k].s == "{":
                it.body = (toks[k].a, toks[end].a)
                if kw == "trait":
                    it.fns = inner_fns(toks, k + 1, end)
                if kw == "mod":
                    it.items = parse_items(src, toks, k + 1, end)
            i = end + 1
        elif kw == "impl":
            k = j + 1
            while not (toks[k].k == "p" and toks[k].s == "{"):
                if toks[k].k == "p" and toks[k].s in ("(", "["):
                    k = toks[k].m
                k += 1
            end = toks[k].m
            it = Item("impl", norm(toks[j + 1:k]), toks[start].a, toks[end].b)
            it.body = (toks[k].a, toks[end].a)
            it.fns = inner_fns(toks, k + 1, end)
            i = end + 1
        elif kw in ("const", "static", "type", "use"):
            name = toks[j + 1].s
            if name == "mut":
                name = toks[j + 2].s
            k = j
            while not (toks[k].k == "p" and toks[k].s == ";"):
                if toks[k].k == "p" and toks[k].s in OPEN:
                    k = toks[k].m
                k += 1
            it = Item(kw, name, toks[start].a, toks[k].b)
            i = k + 1
        else:
            # macro invocation or macro_rules
            k = j
            while not (toks[k].k == "p" and toks[k].s in OPEN):
                k += 1
            end = toks[k].m
            if end + 1 < b and toks[end + 1].s == ";":
                end += 1
            it = Item("macro", toks[j].s, toks[start].a, toks[end].b)
            i = end + 1
        it.cfg_test = cfg_test
        it.attr_a = toks[attr_start].a
        items.append(it)
    return items


def inner_fns(toks, a, b):
    out = []
    i = a
    while i < b:
        attr_start = i
        while toks[i].s == "#":
            i = toks[i + 1].m + 1
        start = i
        j = i
        while toks[j].s in MODS and not (toks[j].s == "const" and toks[j + 1].s not in ("fn", "unsafe")):
            if toks[j].s == "pub" and toks[j + 1].s == "(":
                j = toks[j + 1].m
            j += 1
        if toks[j].s == "fn":
            f = parse_fn(toks, j, start)
            f.attr_a = toks[attr_start].a
            out.append(f)
            i = f.tok_end
        else:
            k = j
            while not (toks[k].k == "p" and toks[k].s == ";"):
                if toks[k].k == "p" and toks[k].s in OPEN:
                    k = toks[k].m
                k += 1
            i = k + 1
    return out
