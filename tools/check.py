#!/usr/bin/env python3
"""check.py PROPERTY : decide one property on /repo's current tree.

1. every unit of the property is generated from /repo's source (vgen) and given to Verus;
2. the executable oracle is built from /repo's source and run (it supplies failing inputs, and stands in, bounded, for
   what the verifier cannot reach);
3. exit 0 / exit 1 with a VIOLATION line; evidence/<property>.json is rewritten.
"""
import concurrent.futures
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import kani            # noqa: E402
import native          # noqa: E402
import vgen            # noqa: E402
from props import PROPS, UNITS  # noqa: E402

BUILD = native.BUILD
VERUS_TIMEOUT = 400

# messages of the verifier that are refuted or unproved obligations; everything else is "cannot decide"
OBLIGATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|assertion might|"
    r"possible arithmetic|possible division|possible bit shift|decreases not satisfied|recommendation not met|"
    r"unreached|not satisfied|index out of bounds|possible overflow", re.I)
LIMIT = re.compile(r"resource limit|rlimit|timed? ?out|Resource limit", re.I)


def run_verus(path, unit, rlimit=None):
    u = UNITS[unit]
    cmd = ["verus", path, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json",
           "--num-threads", str(u.get("threads", 3)), "--rlimit", str(rlimit or u.get("rlimit", 30))] + u.get("args", [])
    for m in u["mods"] or []:
        cmd += ["--verify-module", m]
    t = time.time()
    try:
        p = subprocess.run(["timeout", "-s", "KILL", str(VERUS_TIMEOUT)] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", cwd=os.path.dirname(path))
    except OSError as e:
        return {"ok": False, "undecided": f"verus cannot run: {e}", "cmd": " ".join(cmd), "wall": 0}
    r = {"cmd": " ".join(cmd), "wall": time.time() - t, "errors": [], "limits": [], "other": []}
    try:
        d = json.loads(p.stdout)
    except ValueError:
        d = None
    for line in p.stderr.split("\n"):
        line = line.strip()
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") != "error":
            continue
        spans = [(s["line_start"], s.get("is_primary", False), s.get("label") or "") for s in m.get("spans", [])]
        e = {"msg": m["message"], "spans": spans, "rendered": m.get("rendered") or ""}
        if LIMIT.search(m["message"]):
            r["limits"].append(e)
        elif m.get("code") or not spans:
            if "aborting due to" not in m["message"]:
                r["other"].append(e)
        elif OBLIGATION.search(m["message"]):
            r["errors"].append(e)
        else:
            r["other"].append(e)
    vr = (d or {}).get("verification-results")
    if vr is None or "verified" not in vr or vr.get("encountered-vir-error"):
        r["undecided"] = "the verifier rejected the text: " + "; ".join(e["msg"] for e in r["other"])[:600] if r["other"] else \
            f"the verifier gave no result (exit {p.returncode}): {p.stderr[-300:]}"
        return r
    r["verified"], r["failed"] = vr["verified"], vr["errors"]
    fb = []
    for m in (d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times") or []):
        for f in m.get("function-breakdown", []):
            fb.append((f["function"], f.get("success"), f.get("time-micros", 0) / 1e6))
    r["functions"] = fb
    r["smt_s"] = sum(x[2] for x in fb)
    if r["other"] and not r["errors"]:
        r["undecided"] = "; ".join(e["msg"] for e in r["other"])[:600]
    elif r["limits"] and not r["errors"]:
        r["undecided"] = "resource limit: " + "; ".join(e["msg"] for e in r["limits"])[:300]
    elif vr["errors"] and not r["errors"]:
        r["undecided"] = "unclassified verifier error"
    return r


def label_at(regions, line):
    lab = "overlay"
    for a, b, l in regions:
        if a <= line <= b and l != "overlay":
            lab = l
    return lab


def do_unit(unit):
    """-> dict(state proved|failed|undecided, ...)"""
    if UNITS[unit].get("kani"):
        return kani.run(unit, UNITS[unit])
    ov = os.path.join(HERE, "overlays", unit + ".rs")
    out = {"unit": unit, "state": "undecided", "why": None, "contracts": [], "failures": [], "wall": 0.0}
    d = os.path.join(BUILD, "verus", unit)
    os.makedirs(d, exist_ok=True)
    try:
        o, _ = vgen.generate(ov)
        v, _ = vgen.generate(ov, mutate="vacuity")
    except vgen.Drift as e:
        out["why"] = f"annotations do not attach: {e}"
        return out
    out.update(contracts=o.contracts, drift=o.drift, changed=o.changed, dropped=o.dropped, uncontracted=o.uncontracted)
    text = o.text
    out["trusted"] = trusted(text)
    p = os.path.join(d, unit + ".rs")
    open(p, "w").write(text)
    pv = os.path.join(d, unit + "_vacuity.rs")
    open(pv, "w").write(v.text)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a = ex.submit(run_verus, p, unit)
        b = ex.submit(run_verus, pv, unit, 1)
        r, rv = a.result(), b.result()
    out.update(cmd=r["cmd"], wall=r["wall"], verified=r.get("verified", 0), smt_s=r.get("smt_s", 0.0), functions=r.get("functions", []))
    out["file"] = p
    if "undecided" in r:
        out["why"] = r["undecided"]
        return out
    if r["failed"] == 0 and not r["errors"]:
        if r["verified"] < UNITS[unit]["min"]:
            out["why"] = f"only {r['verified']} obligations were generated"
            return out
        out["vacuity_reached"] = len({label_at(v.regions, s[0]) for e in rv.get("errors", []) + rv.get("limits", []) for s in e["spans"]} - {"overlay"})
        mods = UNITS[unit]["mods"]
        live = {label_at(v.regions, s[0]) for e in rv.get("errors", []) + rv.get("limits", []) for s in e["spans"]}
        mute = [c for c in v.mutated if c not in live and (mods is None or v.modof.get(c) in mods)]
        if "verified" not in rv:
            out["why"] = "the vacuity check did not run: " + str(rv.get("undecided"))
            return out
        if mute:
            out["why"] = "vacuous precondition (assert(false) is provable) in " + ", ".join(mute)
            return out
        out["state"] = "proved"
        return out
    for e in r["errors"]:
        labs = [label_at(o.regions, s[0]) for s in e["spans"] if s[1]] or ["overlay"]
        alllabs = {label_at(o.regions, s[0]) for s in e["spans"]} - {"overlay"}
        impls = [label_at(o.regions, s[0]) for s in e["spans"]]
        lab = next((x for x in impls if "::impl" in x), None) or next((x for x in labs if x != "overlay"), None) or next(iter(sorted(alllabs)), "overlay")
        out["failures"].append({"function": lab, "obligation": e["msg"], "detail": e["rendered"][:3000]})
    out["state"] = "failed"
    return out


def trusted(text):
    t = []
    for m in re.finditer(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", text):
        t.append("assumed contract on " + m.group(1))
    for m in re.finditer(r"external_trait_specification[\s\S]{0,400}?ExternalTraitSpecificationFor:\s*([\w:<>]+)", text):
        t.append("assumed contract on trait " + m.group(1))
    for m in re.finditer(r"#\[verifier::(external_body|external_type_specification|external)\]\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?(?:struct|fn|enum)\s+(\w+)", text):
        t.append(f"{m.group(1)} {m.group(2)}")
    if re.search(r"\badmit\s*\(\)", text):
        t.append("admit()")
    for m in re.finditer(r"\bassume\s*\(([^;]*)\);", text):
        t.append("assume(" + m.group(1)[:80] + ")")
    return sorted(set(t))


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\w+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    secs = P.get("secs", {"quick": 6, "thorough": 120}[tier])
    if tier == "thorough":
        secs = max(secs, 120)

    def nat():
        b, log = native.build([P["native"]])
        if b is None:
            return None, {"error": "the oracle does not build against this tree: " + log[-1500:]}
        return b, native.run(b, prop, seed, secs)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        nf = ex.submit(nat) if P.get("native") else None
        us = [ex.submit(do_unit, u) for u in P["units"]]
        units = [u.result() for u in us]
        binary, nres = nf.result() if nf else (None, {"error": "none"})
    failed = [u for u in units if u["state"] == "failed"]
    undecided = [u for u in units if u["state"] == "undecided"]
    # the obligations that concern this property
    want = P.get("fns")
    fails = [dict(f, unit=u["unit"]) for u in failed for f in u["failures"]
             if f["function"].split("::")[-1] not in P.get("skip", []) and (want is None or f["function"] == "overlay" or f["function"].split("::")[-1] in want)]
    # a contract that pins the code written for a value is stronger than the property: where the inductive step
    # over the same functions (every state, every value) is proved on the compiled code, the property still holds
    proved = {u["unit"] for u in units if u["state"] == "proved"}
    aside = [f for f in fails for v, rx, by in P.get("stepwise", []) if f["unit"] == v and set(by) <= proved and re.search(rx, f["function"])]
    fails = [f for f in fails if f not in aside]
    search = 0
    for u in units:
        # the verifier's counterexample, already replayed against the real code
        if u.get("fail") and not nres.get("fail"):
            nres["fail"] = u["fail"]
    if not nres.get("fail") and binary and (fails or undecided or aside):
        # search for an input on which the real code breaks the property
        search = P.get("search", 60)
        with concurrent.futures.ThreadPoolExecutor(7) as ex:
            rs = list(ex.map(lambda s: native.run(binary, prop, s, search), [seed * 1000 + i for i in range(1, 8)]))
        for r in rs:
            if r.get("fail"):
                nres["fail"] = r["fail"]
            nres["evals"] = nres.get("evals", 0) + r.get("evals", 0)
            nres["distinct"] = nres.get("distinct", 0) + r.get("distinct", 0)
    violation = None
    if nres.get("fail"):
        violation = "input"
    elif fails and not any(u.get("drift") for u in failed):
        violation = "obligation"
    replay = os.path.join(HERE, "evidence", f"replay-{prop}.json")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if os.path.exists(replay):
        os.unlink(replay)
    obl = sum(u.get("verified", 0) for u in units) + sum(len(u["failures"]) for u in units)
    done = sum(u.get("verified", 0) for u in units)
    bounded = [f"unit {u['unit']} not decided by the verifier on this tree ({u['why'] or 'shape changed: ' + '; '.join(u.get('drift', []))}); "
               f"the bounded oracle decided" for u in undecided + [u for u in failed if u.get("drift")]]
    bounded += [f"{f['function']}: the code written for a value differs from the contract of unit {f['unit']}; decided by the inductive step on compiled code and, for whole series, by the bounded oracle" for f in aside]
    tb = sorted({t for u in units for t in u.get("trusted", [])})
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": ("exploration" if not units else "proof") if not (undecided or failed) else "other",
        "coverage": {
            "obligations": obl, "discharged": done,
            "checker_cmd": "; ".join(u.get("cmd", "") for u in units),
            "trusted_base": (["Verus 0.2026.09.13 with Z3, and vstd"] if any(u.get("kind") != "kani" for u in units) else []) + ["tools/vgen.py (mechanical extraction; drops attributes, doc comments, cfg(test) items and the functions listed as dropped)"] + tb,
            "back_end": " and ".join(sorted({"Kani/CBMC" if u.get("kind") == "kani" else "Verus/Z3" for u in units})), "solver_s": round(sum(u.get("smt_s", 0) for u in units), 3),
            "units": [{"unit": u["unit"], "state": u["state"], "why": u["why"], "verified": u.get("verified", 0), "wall_s": round(u["wall"], 2),
                       "functions_under_contract": u["contracts"], "dropped": u.get("dropped", []), "changed_since_annotation": u.get("changed", []),
                       "drift": u.get("drift", []), "vacuity_functions_reached": u.get("vacuity_reached")} for u in units],
            "functions_under_contract": sorted({c for u in units for c in u["contracts"]}),
            "bounded": bounded + P.get("bounded", []),
            "evaluations": nres.get("evals", 0), "distinct_nontrivial": nres.get("distinct", 0),
            "rule": "executable oracle on the real code: inputs generated from VERIF_SEED with sizes growing during the run; distinct inputs by content",
            "samples": nres.get("samples", [])[:6], "oracle_tests": nres.get("tests", {}), "oracle_error": nres.get("error"),
            "search_s": search,
            "explanation": "Verus obligations generated from the current source; the executable oracle replays and searches for failing inputs",
        },
        "assumptions": P.get("assumptions", []) + tb,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    for u in units:
        print(f"unit {u['unit']}: {u['state']} verified={u.get('verified', 0)} wall={u['wall']:.1f}s {u['why'] or ''} {'; '.join(u.get('drift', []))}")
        for f in u["failures"]:
            print(f"  failed obligation in {f['function']}: {f['obligation']}")
    print(f"oracle: {nres.get('evals', 0)} inputs, {nres.get('error') or ('FAIL' if nres.get('fail') else 'ok')}")
    if violation:
        f = nres.get("fail")
        json.dump({"property": prop, "failing_input": f, "failed_obligations": fails,
                   "replay_cmd": f"python3 tools/replay.py {replay}" if f else None, "seed": seed,
                   "suite": P.get("native")}, open(replay, "w"), indent=1)
        if f:
            print(f"failing input ({f['test']}): {f['msg'][:1500]}\n  {f.get('input', '')[:1500]}")
        print(f"VIOLATION property={prop} replay={replay}" + ("" if f else " no-failing-input-found"))
        sys.exit(1)
    for b in bounded:
        print("bounded:", b)
    print(f"OK property={prop} obligations={obl} discharged={done} functions={len(ev['coverage']['functions_under_contract'])}")
    sys.exit(0)


if __name__ == "__main__":
    main()
