"""Iterator chains written out as the loops they stand for (the verifier takes no closures without contracts).

  R.iter().map(|p| B).collect::<Vec<T>>()        { let mut v = Vec::<T>::new(); for p in R.iter() { v.push(B); } v }
  R.into_iter().map(|p| B).collect()             the same over R by value
  let z = (lo..hi).map(|_| E);                   (dropped)
  R.into_iter().zip(z).map(|(p, q)| B).collect() the loop over both, stopping at the shorter, that evaluates E where zip would
  R.iter().map(|p| B).sum()                      { let mut v = 0; for p in R.iter() { v += B; } v }
  for P in R.iter().map(|p| B) {                 for p in R.iter() { let P = B;
  for (p, q) in A.iter_mut().zip(B.iter()) {     indexed loop up to the shorter of the two
"""
import rustlex

OPEN, CLOSE = "([{", ")]}"


def _toks(text):
    return rustlex.code_tokens(text)


def _match(t, k):
    """index of the token closing the bracket at k"""
    d = 0
    for j in range(k, len(t)):
        if t[j].s in ("(", "[", "{"):
            d += 1
        elif t[j].s in (")", "]", "}"):
            d -= 1
            if d == 0:
                return j
    raise ValueError("unbalanced")


def _recv(t, j):
    """first token of the receiver that ends at token j"""
    while True:
        if t[j].s in (")", "]"):
            d = 0
            while True:
                d += t[j].s in (")", "]", "}")
                d -= t[j].s in ("(", "[", "{")
                if d == 0:
                    break
                j -= 1
            if j > 0 and t[j - 1].k == "id" and t[j - 1].s not in ("if", "match", "return", "in", "while"):
                j -= 1
                continue
            if j > 0 and t[j - 1].s == ">":
                return j
        if t[j].s == "?":
            j -= 1
            continue
        if j > 0 and t[j - 1].s in (".", "::"):
            j -= 2
            continue
        return j


def _is(t, k, *want):
    return k >= 0 and k + len(want) <= len(t) and all(t[k + i].s == w for i, w in enumerate(want))


def _closure(text, t, k):
    """`(|pat| body)` at k -> (pat, body, index after the closing bracket) or None"""
    if not _is(t, k, "(", "|"):
        return None
    c = _match(t, k)
    d, bar = 0, None
    for j in range(k + 2, c):
        if t[j].s in ("(", "["):
            d += 1
        elif t[j].s in (")", "]"):
            d -= 1
        elif t[j].s == "|" and d == 0:
            bar = j
            break
    if bar is None or bar + 1 >= c:
        return None
    e = c - 1
    if t[e].s == ",":
        e -= 1
    return text[t[k + 2].a:t[bar - 1].b], text[t[bar + 1].a:t[e].b], c + 1


def _collect(text, t, k):
    """`.collect()` or `.collect::<T>()` at k -> (T or None, end index) or None"""
    if not _is(t, k, ".", "collect"):
        return None
    if _is(t, k + 2, "(", ")"):
        return None, k + 4
    if _is(t, k + 2, "::", "<"):
        j = k + 3
        d = 0
        while j < len(t):
            if t[j].s == "<":
                d += 1
            elif t[j].s == ">":
                d -= 1
            elif t[j].s == ">>":
                d -= 2
            if d <= 0:
                break
            j += 1
        if _is(t, j + 1, "(", ")"):
            return text[t[k + 4].a:t[j].a if t[j].s == ">" else t[j].a + 1], j + 3
    return None


def _one(text, n):
    t = _toks(text)
    for k, x in enumerate(t):
        # for (p, q) in A.iter_mut().zip(B.iter())
        if x.s == "for" and _is(t, k + 1, "("):
            c = _match(t, k + 1)
            if c == k + 5 and _is(t, c + 1, "in"):
                j = c + 2
                while j < len(t) and t[j].s != "{":
                    if _is(t, j, ".", "iter_mut", "(", ")", ".", "zip", "("):
                        z = _match(t, j + 6)
                        if _is(t, z + 1, "{") and _is(t, z - 4, ".", "iter", "(", ")"):
                            a, b = text[t[c + 2].a:t[j - 1].b], text[t[j + 7].a:t[z - 5].b]
                            p, q, v = t[k + 2].s, t[k + 4].s, f"vz_{n}"
                            return text[:x.a] + f"let mut {v}: usize = 0; while {v} < {a}.len() && {v} < {b}.len() {{ let {p} = &mut {a}[{v}]; let {q} = &{b}[{v}]; {v} = {v} + 1;" + text[t[z + 1].b:]
                    j += 1
        # for P in R.iter().map(|p| B) {
        if x.s == "map" and _is(t, k - 5, ".", "iter", "(", ")", "."):
            cl = _closure(text, t, k + 1)
            if cl and cl[2] < len(t) and t[cl[2]].s == "{":
                r = _recv(t, k - 6)
                if _is(t, r - 1, "in"):
                    i = r - 2
                    while i > 0 and t[i].s != "for":
                        i -= 1
                    pat = text[t[i + 1].a:t[r - 2].b]
                    return text[:t[i + 1].a] + f"{cl[0]} in {text[t[r].a:t[k - 2].b]} {{ let {pat} = {cl[1]};" + text[t[cl[2]].b:]
        # R.iter().map(|p| B).collect / .sum ; R.into_iter()...
        if x.s == "map" and (_is(t, k - 5, ".", "iter", "(", ")", ".") or _is(t, k - 5, ".", "into_iter", "(", ")", ".")):
            cl = _closure(text, t, k + 1)
            if not cl:
                continue
            byval = t[k - 4].s == "into_iter"
            r = _recv(t, k - 6)
            src = text[t[r].a:t[k - 6].b] + ("" if byval else ".iter()")
            co = _collect(text, t, cl[2])
            v = f"vc_{n}"
            if co:
                ty = (co[0] or "Vec<_>").replace("Vec<", "Vec::<", 1)
                return text[:t[r].a] + f"{{ let mut {v} = {ty}::new(); for {cl[0]} in {src} {{ {v}.push({cl[1]}); }} {v} }}" + text[t[co[1] - 1].b:]
            if _is(t, cl[2], ".", "sum", "(", ")"):
                return text[:t[r].a] + f"{{ let mut {v} = 0; for {cl[0]} in {src} {{ {v} += {cl[1]}; }} {v} }}" + text[t[cl[2] + 3].b:]
        # R.into_iter().zip(z).map(|(p, q)| B).collect()  with  let z = (lo..hi).map(|_| E);
        if x.s == "zip" and _is(t, k - 5, ".", "into_iter", "(", ")", ".") and _is(t, k + 1, "(") and _is(t, k + 3, ")", ".", "map"):
            z = t[k + 2].s
            cl = _closure(text, t, k + 6)
            if not cl:
                continue
            co = _collect(text, t, cl[2])
            let = next((i for i in range(k, 0, -1) if _is(t, i, "let", z, "=", "(")), None)
            if not co or let is None:
                continue
            c = _match(t, let + 3)
            dots = next((i for i in range(let + 4, c) if t[i].s == ".."), None)
            if dots is None or not _is(t, c + 1, ".", "map"):
                continue
            zc = _closure(text, t, c + 3)
            if not zc or zc[0].strip() != "_" or not _is(t, zc[2], ";"):
                continue
            lo, hi = text[t[let + 4].a:t[dots - 1].b], text[t[dots + 1].a:t[c - 1].b]
            pq = [s.strip() for s in cl[0].strip()[1:-1].split(",")]
            r = _recv(t, k - 6)
            v = f"vc_{n}"
            new = (f"{{ let {v}_s = {text[t[r].a:t[k - 6].b]}; let mut {v} = Vec::new(); let mut {v}_i: usize = 0; let mut {v}_z = {lo}; "
                   f"while {v}_i < {v}_s.len() && {v}_z < {hi} {{ let {pq[0]} = {v}_s[{v}_i]; let {pq[1]} = {zc[1]}; {v}_i = {v}_i + 1; {v}_z = {v}_z + 1; {v}.push({cl[1]}); }} {v} }}")
            text = text[:t[r].a] + new + text[t[co[1] - 1].b:]
            return text[:t[let].a] + text[t[zc[2]].b:]
    return None


def desugar(text):
    n = 0
    while True:
        try:
            new = _one(text, n + 1)
        except (ValueError, IndexError, AssertionError, rustlex.LexError):
            return text, n
        if new is None:
            return text, n
        text = new
        n += 1


if __name__ == "__main__":
    import sys
    print(desugar(open(sys.argv[1]).read())[0])
