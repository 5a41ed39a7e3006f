"""Mechanical extraction of annotated Verus input from /repo's current source.

An overlay (overlays/*.rs) is Verus text (specifications, lemmas) with
directives.  `//@item FILE :: SELECTOR` is replaced by that item's own source
text from /repo, byte for byte, except that
  * outer attributes of the item and of its functions are dropped
    (doc comments, derives, inline, cfg_attr), and items under #[cfg(test)];
  * functions named by `//@skip` are dropped (reported);
  * the annotations of the overlay are inserted: contracts after a function's
    signature, clauses in a loop header, proof text at the start or end of a
    function body or loop body, ghost members at the start of an item body;
  * `pub(crate)` and `pub(super)` become `pub` (contracts may not mention less visible types);
  * calls named by `//@rewrite` become calls of a wrapper with an assumed contract (reported);
  * under `//@desugar`, iterator chains are written out as the loops they stand for (tools/desugar.py);
  * `-> T` becomes `-> (name: T)` where a contract names the result.
Annotations are attached by function name and loop ordinal, never by statement
text.  Locals renamed in the source are renamed in the annotations.
"""
import difflib
import json
import os
import re

import desugar
import rustlex

REPO = os.environ.get("EBI_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.path.join(HERE, "overlays", "baseline.json")


class Drift(Exception):
    """The source no longer has the shape the annotations were written for."""


class SourceBroken(Exception):
    pass


_cache = {}


def load(file, loops=False):
    if (file, loops) not in _cache:
        p = os.path.join(REPO, file)
        try:
            src = open(p).read()
        except OSError:
            raise Drift(f"{file} is missing")
        if loops:
            src, _ = desugar.desugar(src)
        try:
            toks = rustlex.code_tokens(src)
            _cache[file, loops] = (src, toks, rustlex.parse_items(src, toks))
        except (rustlex.LexError, AssertionError, IndexError, ValueError) as e:
            raise Drift(f"{file} cannot be parsed: {e}")
    return _cache[file, loops]


def norm_header(h):
    return " ".join(t.s for t in rustlex.lex(h))


def find_item(file, sel, loops=False):
    src, toks, items = load(file, loops)
    kind, name = re.match(r"(\w+)\s*(.*)$", sel, re.S).groups()
    # nested: mod a :: kind name
    while kind == "mod" and "::" in name:
        mod, _, rest = name.partition("::")
        mods = [i for i in items if i.kind == "mod" and i.name == mod.strip()]
        if not mods:
            raise Drift(f"{file}: no module {mod}")
        items = mods[0].items
        kind, name = re.match(r"(\w+)\s*(.*)$", rest.strip(), re.S).groups()
    name = name.strip()
    if kind == "impl":
        name = norm_header(name)
    c = [i for i in items if i.kind == kind and i.name == name and not i.cfg_test]
    if not c:
        raise Drift(f"{file}: no item `{sel}`")
    return src, toks, c


class FnAnn:
    def __init__(self):
        self.ret = None
        self.sections = {}   # key -> text
        self.used = False


class Block:
    def __init__(self, file, sel):
        self.file, self.sel = file, sel
        self.inside = ""
        self.skip = set()
        self.only = None
        self.fns = {}
        self.nth = 0
        self.external = set()
        self.rewrites = []
        self.noinline = False
        self.desugar = False


def read_overlay(path):
    """Yield ('text', s) and ('block', Block)."""
    out = []
    cur = None
    fn = None
    target = None
    buf = []

    def flush():
        nonlocal buf
        t = "\n".join(buf)
        buf = []
        if target is None:
            if t:
                out.append(("text", t + "\n"))
        elif target == "inside":
            cur.inside += t + "\n"
        else:
            fn.sections[target] = fn.sections.get(target, "") + t + "\n"

    for line in open(path).read().split("\n"):
        st = line.strip()
        if not st.startswith("//@"):
            buf.append(line)
            continue
        flush()
        w = st[3:].strip().split(None, 1)
        d, arg = w[0], (w[1] if len(w) > 1 else "")
        if d == "include":
            out.extend(read_overlay(os.path.join(os.path.dirname(path), arg)))
        elif d == "item":
            file, _, sel = arg.partition(" :: ")
            m = re.match(r"(.*)\s+#(\d+)$", sel)
            cur = Block(file.strip(), sel.strip())
            if m:
                cur.sel, cur.nth = m.group(1), int(m.group(2))
            fn = None
            target = "inside"
        elif d == "skip":
            cur.skip |= set(x.strip() for x in arg.split(","))
        elif d == "desugar":
            cur.desugar = True
        elif d == "only":
            cur.only = set(x.strip() for x in arg.split(","))
        elif d == "inside":
            target = "inside"
        elif d == "external":
            cur.external |= set(x.strip() for x in arg.split(","))
        elif d == "rewrite":
            a, _, b = arg.partition(" => ")
            cur.rewrites.append((a.strip(), b.strip()))
        elif d == "inline":
            cur.rewrites.append(("", arg.strip()))
        elif d == "rewritere":
            a, _, b = (arg + " ").partition(" => ")
            cur.rewrites.append((re.compile(a.strip()), b.strip()))
        elif d == "fn":
            p = arg.split()
            fn = cur.fns.setdefault(p[0], FnAnn())
            for o in p[1:]:
                if o.startswith("ret="):
                    fn.ret = o[4:]
            target = "spec"
        elif d in ("spec", "start", "end", "attr", "cond"):
            target = d
        elif d in ("loop", "loopstart", "loopend"):
            p = arg.split()
            target = f"{d}:{p[0]}"
            for o in p[1:]:
                if o.startswith("it="):
                    fn.sections[f"it:{p[0]}"] = o[3:]
                if o in ("ix", "ixv", "ixs"):
                    fn.sections[f"ix:{p[0]}"] = o
        elif d == "enditem":
            out.append(("block", cur))
            cur = fn = target = None
        elif d == "newfns":
            out.append(("newfns", arg))
        else:
            raise ValueError(f"{path}: unknown directive {d}")
    flush()
    return out


KW = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref
return self Self static struct super trait true type unsafe use where while async await dyn u8 u16 u32 u64 usize i8 i16
i32 i64 isize f32 f64 bool str Some None Ok Err Option Result Vec""".split())


def fn_tokens(toks, f):
    return [t.s for t in toks[f.tok_start:f.tok_end]]


def load_baseline():
    try:
        return json.load(open(BASE))
    except OSError:
        return {}


def rename_map(old, new):
    """Identifiers of `old` consistently replaced in `new`, or {}."""
    if old == new:
        return {}
    m, bad = {}, set()
    sm = difflib.SequenceMatcher(None, old, new, autojunk=False)
    idre = re.compile(r"^[A-Za-z_]\w*$")
    newset, oldset = set(new), set(old)
    for tag, a0, a1, b0, b1 in sm.get_opcodes():
        if tag == "replace" and a1 - a0 == b1 - b0:
            for x, y in zip(old[a0:a1], new[b0:b1]):
                if idre.match(x) and idre.match(y) and x not in KW and y not in KW:
                    if m.get(x, y) != y:
                        bad.add(x)
                    m[x] = y
    return {x: y for x, y in m.items() if x not in bad and x not in newset and y not in oldset}


class Out:
    def __init__(self):
        self.text = ""
        self.regions = []      # (first line, last line, label)
        self.contracts = []    # functions with a contract from the overlay
        self.dropped = []
        self.drift = []        # reasons the shape differs from the baseline
        self.changed = []      # functions whose tokens differ from the baseline
        self.uncontracted = []
        self.mutated = []      # functions that got the vacuity assertion
        self.modof = {}        # label -> module of the generated file

    def add(self, s):
        self.text += s


COMB = {"is_some_and": "false", "is_none_or": "true", "map_or": None, "map": "None", "unwrap_or_else": ""}


def inline_options(text):
    """`o.is_some_and(|p| b)`, `o.is_none_or(|p| b)`, `o.map_or(d, |p| b)`, `o.map(|p| b).unwrap_or_else(|| d)` as match expressions (the verifier takes no closures without contracts)."""
    n = 0
    while True:
        try:
            toks = rustlex.code_tokens(text)
        except (rustlex.LexError, AssertionError, IndexError, ValueError):
            return text, n
        hit = None
        for k, t in enumerate(toks):
            if t.s in COMB and k > 1 and toks[k - 1].s == "." and k + 1 < len(toks) and toks[k + 1].s == "(":
                close, depth = None, 0
                for j in range(k + 1, len(toks)):
                    if toks[j].s in "([{":
                        depth += 1
                    elif toks[j].s in ")]}":
                        depth -= 1
                        if depth == 0:
                            close = j
                            break
                if close is None:
                    continue
                a = k + 2
                dflt = COMB[t.s]
                if t.s == "map" and not (close + 2 < len(toks) and toks[close + 1].s == "." and toks[close + 2].s in ("unwrap_or_else", "unwrap_or")):
                    continue
                if dflt is None:
                    depth, j = 0, a
                    while j < close and not (depth == 0 and toks[j].s == ","):
                        depth += toks[j].s in "([{"
                        depth -= toks[j].s in ")]}"
                        j += 1
                    if j == close:
                        continue
                    dflt = text[toks[a].a:toks[j - 1].b]
                    a = j + 1
                if t.s == "unwrap_or_else" and toks[a].s == "||":
                    bar = a
                elif toks[a].s != "|":
                    continue
                elif t.s == "unwrap_or_else" and toks[a + 1].s != "|":
                    continue
                else:
                    bar = None
                bar = bar if bar is not None else next((j for j in range(a + 1, close) if toks[j].s == "|"), None)
                if bar is None:
                    continue
                # the receiver, backwards over calls, indexing, fields and paths
                j = k - 2
                while True:
                    if toks[j].s in (")", "]"):
                        d = 0
                        while True:
                            d += toks[j].s in ")]}"
                            d -= toks[j].s in "([{"
                            if d == 0:
                                break
                            j -= 1
                        if j > 0 and (toks[j - 1].k == "id" and toks[j - 1].s not in ("if", "match", "return", "in", "while")):
                            j -= 1
                            continue
                    if toks[j].s == "?":
                        j -= 1
                        continue
                    if j > 0 and toks[j - 1].s in (".", "::"):
                        j -= 2
                        continue
                    break
                hit = (toks[j].a, toks[close].b, text[toks[j].a:toks[k - 2].b], text[toks[a + 1].a:toks[bar - 1].b], text[toks[bar + 1].a:toks[close - 1].b], dflt)
                if t.s == "map":
                    hit = hit[:4] + ("Some(" + hit[4] + ")", "None")
                if t.s == "unwrap_or_else":
                    hit = hit[:3] + ("vi_x", "vi_x", hit[4])
                break
        if not hit:
            return text, n
        a, b, recv, pat, body, dflt = hit
        new = f"(match {recv} {{ Some({pat}) => {body}, None => {dflt} }})"
        new += "\n" * max(0, text[a:b].count("\n") - new.count("\n"))
        text = text[:a] + new + text[b:]
        n += 1


def inline_closure(text, name):
    """`let f = |p: T| { b };` (or `let f = path;`): f(e) as { let p = e; b }, o.unwrap_or_else(f) as a match."""
    m = re.search(r"let\s+" + name + r"\s*=\s*(?:\|([^|]*)\|\s*(\{)|([\w:]+)\s*;)", text)
    if not m:
        return text, 0
    if m.group(3):
        end, par, body = m.end(), None, m.group(3) + "()"
    else:
        i, depth = m.end() - 1, 0
        while True:
            depth += text[i] == "{"
            depth -= text[i] == "}"
            i += 1
            if depth == 0:
                break
        e = re.compile(r"\s*;").match(text, i)
        if not e:
            return text, 0
        par, body, end = m.group(1).strip(), re.sub(r"\s+", " ", re.sub(r"//[^\n]*", "", text[m.end() - 1:i])), e.end()
    tail = text[end:]
    n = 0

    def sub(mm):
        nonlocal n
        n += 1
        if mm.group(1) is not None:
            return f"(match {mm.group(1)} {{ Some(vi_x) => vi_x, None => {body} }})"
        return body if not par else f"{{ let {par} = {mm.group(2)}; {body} }}"
    use = r"(?:(\b\w+)\s*\.\s*unwrap_or_else\(\s*" + name + r"\s*\)|\b" + name + r"\(([^()]*)\))"
    if re.search(r"\b" + name + r"\b", re.sub(r"//[^\n]*", "", re.sub(use, "", tail))):
        return text, 0   # used in some other way
    tail = re.sub(use, sub, tail)
    return text[:m.start()] + "\n" * text[m.start():end].count("\n") + tail, n


def emit_block(out, blk, baseline, record, mutate=None):
    src, toks, cands = find_item(blk.file, blk.sel, blk.desugar)
    if blk.desugar:
        out.dropped.append(f"{blk.file}::{blk.sel}: iterator chains written out as loops (tools/desugar.py)")
    if blk.nth >= len(cands):
        raise Drift(f"{blk.file}: no item `{blk.sel}` #{blk.nth}")
    it = cands[blk.nth]
    edits = []   # (pos, order, delete_to, insert)
    if it.body and blk.inside.strip():
        edits.append((it.body[0] + 1, 0, it.body[0] + 1, "\n" + blk.inside))
    fn_regions = []
    seen = set()
    for f in it.fns:
        label = f"{blk.file}::{blk.sel}::{f.name}" if it.kind != "fn" else f"{blk.file}::{f.name}"
        if f.name in blk.skip or (blk.only is not None and f.name not in blk.only):
            if it.kind != "fn":
                edits.append((f.attr_a, 0, f.b, ""))
                out.dropped.append(label)
                continue
        seen.add(f.name)
        if it.kind != "fn" and f.attr_a < f.a:
            edits.append((f.attr_a, 0, f.a, ""))
        ann = blk.fns.get(f.name)
        ft = fn_tokens(toks, f)
        record[label] = ft
        ren = {}
        if label in baseline and baseline[label] != ft:
            out.changed.append(label)
            ren = rename_map(baseline[label], ft)
        fn_regions.append((f.a, f.b, label))
        if f.body is not None and f.name not in blk.external:
            if mutate == "vacuity":
                edits.append((f.body[0] + 1, 0, f.body[0] + 1, " proof { assert(false); } "))
                out.mutated.append(label)
                mods = re.findall(r"^pub mod (\w+) \{", out.text, re.M)
                out.modof[label] = mods[-1] if mods else ""
            if it.kind == "impl" and re.search(r"\bfor\b", it.name.split("where")[0].replace("for <", "")) and (ann is None or not ann.sections.get("spec", "").strip()):
                out.contracts.append(label)   # contract inherited from the trait
        if ann is None:
            if f.body is not None and label not in baseline and baseline:
                out.uncontracted.append(label)
                out.drift.append(f"new function {label} has no contract")
            if f.name in blk.external:
                edits.append((f.a, 1, f.a, "#[verifier::external_body] "))
            continue
        ann.used = True

        def R(t):
            for x, y in ren.items():
                t = re.sub(rf"\b{re.escape(x)}\b", y, t)
            return t
        if ann.ret and f.ret:
            edits.append((f.ret[0], 0, f.ret[0], f"({ann.ret}: "))
            edits.append((f.ret[1], 9, f.ret[1], ")"))
        elif ann.ret and not f.ret:
            raise Drift(f"{label}: no return type")
        if "attr" in ann.sections:
            edits.append((f.a, 1, f.a, ann.sections["attr"].strip() + "\n"))
        if ann.sections.get("spec", "").strip():
            edits.append((f.sig_end, 10, f.sig_end, "\n" + R(ann.sections["spec"])))
            if f.body is not None:
                out.contracts.append(label)
        if f.body is None:
            continue
        if "start" in ann.sections:
            edits.append((f.body[0] + 1, 1, f.body[0] + 1, "\n" + R(ann.sections["start"])))
        if "end" in ann.sections:
            t = R(ann.sections["end"])
            if f.ret is None:
                edits.append((f.body[1] - 1, 5, f.body[1] - 1, ";\n" + t))
            else:
                rn = ann.ret or "verus_ret"
                edits.append((f.body[0] + 1, 2, f.body[0] + 1, f"\nlet {rn} = {{\n"))
                edits.append((f.body[1] - 1, 5, f.body[1] - 1, f"\n}};\n{t}\n{rn}\n"))
        want = [int(k.split(":")[1]) for k in ann.sections if k.split(":")[0] in ("loop", "loopstart", "loopend")]
        nb = None
        if label in baseline:
            nb = len([x for x in baseline[label] if x in ("while", "for", "loop")])
        if want and max(want) > len(f.loops):
            raise Drift(f"{label}: {len(f.loops)} loop(s), annotations are for {max(want)}")
        if nb is not None and len([x for x in ft if x in ("while", "for", "loop")]) != nb:
            out.drift.append(f"{label}: number of loops changed")
        for n, lp in enumerate(f.loops, 1):
            if lp["kw"] == "for":
                pat, ex = src[lp["a"] + 3:lp["in"] - 2], src[lp["in"]:lp["open"]]
                en = re.match(r"^\s*\(\s*(\w+)\s*,\s*(&?\s*\w+)\s*\)\s*$", pat)
                ee = re.match(r"^\s*([\w.\s]+?)\s*\.\s*iter\(\)\s*\.\s*enumerate\(\)\s*$", ex)
                rf = re.match(r"^\s*&\s*(\w+)\s*$", pat)
                ix = f"ix:{n}" in ann.sections
                sl = re.match(r"^\s*&?\s*(\w+(?:\s*\.\s*\w+)*?)\s*(?:\.\s*iter\(\)\s*)?(\.\s*copied\(\)\s*)?$", ex) if ix else None
                rg = re.match(r"^\s*(.+?)\s*\.\.\s*(.+?)\s*$", ex, re.S) if ix else None
                rv = re.match(r"^\s*\(\s*([\w.]+?)\s*\.\.\s*([\w.]+?)\s*\)\s*\.\s*rev\(\)\s*$", ex, re.S) if ix else None
                em = re.match(r"^\s*(\w+)\s*\.\s*iter\(\)\s*\.\s*enumerate\(\)\s*\.\s*map\(\s*\|\s*\(\s*(\w+)\s*,\s*&\s*(\w+)\s*\)\s*\|(.*)\)\s*$", ex, re.S) if ix else None
                sp = re.match(r"^\s*(&?)\s*(\w+)\s*$", pat)
                if ix and ann.sections[f"ix:{n}"] == "ixs" and sp:
                    # for x in e  (e gives a vector of what it yields) as an indexed while loop over that vector
                    v = f"vx_{n}"
                    edits.append((lp["a"], 0, lp["in"], f"let {v}_s ="))
                    edits.append((lp["open"], -1, lp["open"], f"; let mut {v}: usize = 0; while {v} < {v}_s.len() "))
                    edits.append((lp["open"] + 1, 0, lp["open"] + 1, f" let {sp.group(2)} = {v}_s[{v}]; {v} = {v} + 1;"))
                    out.dropped.append(f"{label}: loop {n} stands as an indexed while loop")
                    en = ee = rf = None
                elif rv and sp:
                    # for i in (a..b).rev()  as a while loop counting down
                    v = f"vx_{n}"
                    edits.append((lp["a"], 0, lp["open"], f"let {v}_b = {rv.group(1)}; let mut {v} = {rv.group(2)}; while {v} > {v}_b "))
                    edits.append((lp["open"] + 1, 0, lp["open"] + 1, f" {v} = {v} - 1; let {sp.group(2)} = {v};"))
                    out.dropped.append(f"{label}: loop {n} over a reversed range stands as a while loop")
                    en = ee = rf = None
                elif em:
                    # for p in e.iter().enumerate().map(|(i, &x)| t)  as an indexed while loop
                    v = f"vx_{n}"
                    edits.append((lp["a"], 0, lp["open"], f"let mut {v}: usize = 0; while {v} < {em.group(1)}.len() "))
                    edits.append((lp["open"] + 1, 0, lp["open"] + 1, f" let {pat.strip()} = {{ let {em.group(2)} = {v}; let {em.group(3)} = {em.group(1)}[{v}]; {em.group(4).strip()} }}; {v} = {v} + 1;"))
                    out.dropped.append(f"{label}: loop {n} over iter().enumerate().map() stands as an indexed while loop")
                    en = ee = rf = None
                elif ix and (sl or rg) and sp:
                    v = f"vx_{n}"
                    if rg:
                        # for i in a..b  as a while loop
                        edits.append((lp["a"], 0, lp["open"], f"let mut {v} = {rg.group(1)}; let {v}_e = {rg.group(2)}; while {v} < {v}_e "))
                        edits.append((lp["open"] + 1, 0, lp["open"] + 1, f" let {sp.group(2)} = {v}; {v} = {v} + 1;"))
                    else:
                        # for x in e  (a slice or vector) as an indexed while loop
                        e, byv = re.sub(r"\s", "", sl.group(1)), bool(sl.group(2)) or sp.group(1) or ann.sections[f"ix:{n}"] == "ixv"
                        edits.append((lp["a"], 0, lp["open"], f"let mut {v}: usize = 0; while {v} < {e}.len() "))
                        edits.append((lp["open"] + 1, 0, lp["open"] + 1, f" let {sp.group(2)} = {'' if byv else '&'}{e}[{v}]; {v} = {v} + 1;"))
                    out.dropped.append(f"{label}: loop {n} stands as an indexed while loop")
                    en = ee = rf = None
                elif ix and re.match(r"^\s*iter::once\((.*)\)\.chain\((\w+)\)\s*$", ex, re.S):
                    # for p in iter::once(x).chain(it)  with  let it = e.chunks_exact(k).rev().map(|f| {..});
                    oc = re.match(r"^\s*iter::once\((.*)\)\.chain\((\w+)\)\s*$", ex, re.S)
                    lt = re.search(r"let " + oc.group(2) + r"\s*=\s*([\w.]+?)\s*\.\s*chunks_exact\((\w+)\)\s*\.\s*rev\(\)\s*\.\s*map\(\s*\|(\w+)\|\s*(\{.*?\})\s*\)\s*;", src[f.body[0]:lp["a"]], re.S)
                    if not lt:
                        raise Drift(f"{label}: loop {n} is no longer over the chunks from the back")
                    v, e, k = f"vx_{n}", lt.group(1), lt.group(2)
                    edits.append((f.body[0] + lt.start(), 0, f.body[0] + lt.end(), f"let {v}_n = {e}.len() / {k};"))
                    edits.append((lp["a"], 0, lp["open"], f"let mut {v}: usize = 0; while {v} <= {v}_n "))
                    edits.append((lp["open"] + 1, 0, lp["open"] + 1, f" let {pat.strip()} = if {v} == 0 {{ {oc.group(1)} }} else {{ let {lt.group(3)} = &{e}[({v}_n - {v}) * {k}..({v}_n - {v}) * {k} + {k}]; {lt.group(4)} }}; {v} = {v} + 1;"))
                    out.dropped.append(f"{label}: loop {n} over once().chain(chunks_exact().rev().map()) stands as an indexed while loop")
                    en = ee = rf = None
                elif ix:
                    raise Drift(f"{label}: loop {n} is no longer over a slice or range")
                ch = None if ix else re.match(r"^\s*(\w+)\s*\.\s*(iter|iter_mut)\(\)\s*\.\s*enumerate\(\)\s*\.\s*filter\(\s*\|\s*\(\s*(\w+)\s*,\s*_\s*\)\s*\|(.*)\)\s*\.\s*map\(\s*\|\s*\(\s*_\s*,\s*(\w+)\s*\)\s*\|\s*(\w+)\s*\)\s*$", ex, re.S)
                if ch and ch.group(5) == ch.group(6) and re.match(r"^\s*\w+\s*$", pat):
                    # for x in e.iter_mut().enumerate().filter(|(i, _)| c).map(|(_, x)| x)  as an indexed while loop
                    v, e, m = f"vx_{n}", ch.group(1), "mut " if ch.group(2) == "iter_mut" else ""
                    edits.append((lp["a"], 0, lp["open"], f"let mut {v}: usize = 0; while {v} < {e}.len() "))
                    edits.append((lp["open"] + 1, 0, lp["open"] + 1, f" let {v}_i = {v}; let {ch.group(3)} = &{v}_i; {v} = {v} + 1; if !({ch.group(4).strip()}) {{ continue; }} let {pat.strip()} = &{m}{e}[{v}_i];"))
                    out.dropped.append(f"{label}: loop {n} over enumerate().filter() stands as an indexed while loop")
                elif en and ee:
                    # for (i, x) in e.iter().enumerate()  as an indexed while loop
                    v, x, e = f"vx_{n}", en.group(2).replace(" ", ""), ee.group(1).strip()
                    edits.append((lp["a"], 0, lp["open"], f"let mut {v}: usize = 0; while {v} < {e}.len() "))
                    edits.append((lp["open"] + 1, 0, lp["open"] + 1, f" let {en.group(1)} = {v}; let {x.strip('&')} = {'' if x.startswith('&') else '&'}{e}[{v}]; {v} = {v} + 1;"))
                    out.dropped.append(f"{label}: loop {n} over iter().enumerate() stands as an indexed while loop")
                elif rf:
                    # for &x in e  as  for x_r in e { let x = *x_r; .. }
                    edits.append((lp["a"] + 3, 0, lp["in"] - 2, f" {rf.group(1)}_r "))
                    edits.append((lp["open"] + 1, 0, lp["open"] + 1, f" let {rf.group(1)} = *{rf.group(1)}_r;"))
                    out.dropped.append(f"{label}: loop {n}: the pattern &{rf.group(1)} stands as a let")
            elif f"ix:{n}" in ann.sections:
                raise Drift(f"{label}: loop {n} is no longer a for loop")
            itn = ann.sections.get(f"it:{n}")
            if itn:
                if lp["kw"] != "for":
                    raise Drift(f"{label}: loop {n} is no longer a for loop")
                edits.append((lp["in"], 0, lp["in"], f" {itn}:"))
            elif lp["kw"] == "for" and f"loop:{n}" in ann.sections and "it:" in ann.sections:
                raise Drift(f"{label}: loop {n} is now a for loop")
            if f"loop:{n}" in ann.sections:
                edits.append((lp["open"], 0, lp["open"], "\n" + R(ann.sections[f"loop:{n}"])))
            if f"loopstart:{n}" in ann.sections:
                edits.append((lp["open"] + 1, 1, lp["open"] + 1, "\n" + R(ann.sections[f"loopstart:{n}"])))
            if f"loopend:{n}" in ann.sections:
                edits.append((lp["close"], 1, lp["close"], "\n" + R(ann.sections[f"loopend:{n}"])))
    for name, ann in blk.fns.items():
        if name not in seen:
            raise Drift(f"{blk.file}: `{blk.sel}` has no function {name}")
    edits.sort(key=lambda e: (e[0], e[1]))
    pos = it.a
    text = ""
    marks = {}
    points = sorted({p for r in fn_regions for p in r[:2]})
    pi = 0

    def upto(q):
        nonlocal pos, text, pi
        while pi < len(points) and points[pi] <= q:
            if points[pi] >= pos:
                text += src[pos:points[pi]]
                pos = points[pi]
            marks[points[pi]] = text.count("\n")
            pi += 1
        if q > pos:
            text += src[pos:q]
            pos = q
    for p, _, dto, ins in edits:
        upto(p)
        text += ins
        if dto > pos:
            pos = dto
    upto(it.b)
    if blk.fns and not blk.noinline:
        text, k = inline_options(text)
        if k:
            out.dropped.append(f"{blk.file}::{blk.sel}: {k} Option combinator(s) stand as match")
    text = re.sub(r"\bpub\s*\(\s*(crate|super)\s*\)", "pub", text)   # visibility is widened, nothing else
    for a, b in blk.rewrites:   # a standard-library call becomes a call of a wrapper with an assumed contract
        if a == "":
            text, k = inline_closure(text, b)
            if k:
                out.dropped.append(f"{blk.file}::{blk.sel}: the local closure `{b}` stands inline at its {k} use(s)")
            continue
        if not isinstance(a, str):
            if a.search(text):
                text = a.sub(lambda m: m.expand(b) + "\n" * (m.group(0).count("\n") - m.expand(b).count("\n")), text)
                out.dropped.append(f"rewritten: `{a.pattern}` as `{b}`")
            continue
        pat = r"\s*".join(re.escape(t.s) for t in rustlex.lex(a))
        if re.search(pat, text):
            text = re.sub(pat, lambda m: b + "\n" * m.group(0).count("\n"), text)
            out.dropped.append(f"rewritten: `{a}` as `{b}`")
    base = out.text.count("\n") + 1
    for a, b, label in fn_regions:
        if a in marks and b in marks:
            out.regions.append((base + marks[a], base + marks[b], label))
    if it.kind in ("struct", "enum"):
        out.add("".join(re.findall(r"#\[repr\([^\]]*\)\]", src[it.attr_a:it.a])))
    out.add(text + "\n")


def emit_newfns(out, arg, baseline, record):
    """Free functions of FILE that the baseline does not know (new helpers)."""
    file = arg.strip()
    src, toks, items = load(file)
    known = baseline.get(f"{file}::<fns>")
    names = [i.name for i in items if i.kind in ("fn", "const", "static") and not i.cfg_test]
    record[f"{file}::<fns>"] = names
    if known is None:
        return
    for i in items:
        if i.kind in ("fn", "const", "static") and not i.cfg_test and i.name not in known:
            out.drift.append(f"new item {file}::{i.name} has no contract")
            out.add(src[i.a:i.b] + "\n")


def generate(overlay, mutate=None):
    out = Out()
    baseline = load_baseline()
    record = {}
    for kind, x in read_overlay(overlay):
        if kind == "text":
            l0 = out.text.count("\n") + 1
            out.add(x)
            out.regions.append((l0, out.text.count("\n") + 1, "overlay"))
        elif kind == "block":
            emit_block(out, x, baseline, record, mutate)
        else:
            emit_newfns(out, x, baseline, record)
    return out, record


if __name__ == "__main__":
    import sys
    if sys.argv[1] == "--record":
        # authoring only: remember the token text the annotations were written for
        base = {}
        for p in sys.argv[2:]:
            _, r = generate(p)
            base.update(r)
        json.dump(base, open(BASE, "w"), indent=0, sort_keys=True)
        print(len(base), "functions recorded")
    else:
        o, _ = generate(sys.argv[1])
        print(o.text)
