"""Kani units: proof harnesses (pre- and postconditions over the full input domain) run against the real source.

Two forms.  A crate unit (`"crate": True`) is run on the whole ebi crate: .build/kani/ebi holds /repo/ebi/src verbatim
(symlinks), and the files named in the template are copied with the harness text appended at the end of the file, or at
the end of a named inline module, so that it sees private items; lib.rs gets one more module.  Nothing of the code is
dropped.  Directives of the template: `//@append FILE [:: MOD]`, `//@new NAME` (a new module NAME at the crate root),
`//@subst FILE :: A => B` (token text A becomes B; reported).

The other form: kani/<unit>.rs is a template read like an overlay (//@item pulls the item's own text out of /repo, `@REPO@` is the
repository), written to .build/kani/<unit>/src/lib.rs.  Every harness ends in a reachability cover; loops are unwound
completely and the unwinding assertions are on, so a passing harness is a proof for all inputs.
"""
import json
import os
import re
import resource
import shutil
import subprocess
import time

import native
import rustlex
import vgen

HERE = native.HERE
CARGO = """[package]
name = "vk"
version = "0.0.0"
edition = "2021"

[workspace]

[lib]
path = "src/lib.rs"
doctest = false

[lints.rust]
unexpected_cfgs = "allow"
"""
TIMEOUT = 600


CRATE = """[package]
name = "ebi"
version = "0.1.14"
edition = "2021"

[workspace]

[lib]
path = "src/lib.rs"
doctest = false

[dependencies]
{deps}
alp-binding = {{ path = "{alp}", optional = true }}

[features]
ffi_alp = ["dep:alp-binding"]
ffi = ["ffi_alp"]
default = ["ffi"]

[profile.dev]
debug-assertions = {da}
overflow-checks = true

[lints.rust]
unexpected_cfgs = "allow"
"""


def read_template(unit):
    """-> [(directive, argument, text)]"""
    out = []
    cur = None

    def rd(path):
        nonlocal cur
        for line in open(path).read().split("\n"):
            m = re.match(r"//@(append|new|subst|include)\s+(.*)", line.strip())
            if m and m.group(1) == "include":
                rd(os.path.join(os.path.dirname(path), m.group(2)))
            elif m:
                cur = [m.group(1), m.group(2).strip(), ""]
                out.append(cur)
            elif cur:
                cur[2] += line + "\n"
    rd(os.path.join(HERE, "kani", unit + ".rs"))
    return out


def assemble_crate(unit, spec):
    d = os.path.join(native.BUILD, "kani", unit)
    src = os.path.join(d, "src")
    shutil.rmtree(src, ignore_errors=True)
    rs = os.path.join(native.REPO, "ebi", "src")
    shutil.copytree(rs, src)
    for e in ("main.rs",):
        if os.path.exists(os.path.join(src, e)):
            os.unlink(os.path.join(src, e))
    o = vgen.Out()
    texts = ""
    lib = os.path.join(src, "lib.rs")
    for kind, arg, text in read_template(unit):
        if kind == "new":
            open(os.path.join(src, arg + ".rs"), "w").write(text)
            t = open(lib).read()
            open(lib, "w").write(t + f"\n#[allow(warnings)]\npub mod {arg};\n")
            texts += text
            continue
        file, _, rest = arg.partition("::")
        p = os.path.join(src, file.strip())
        if not os.path.exists(p):
            raise vgen.Drift(f"{file} is missing")
        t = open(p).read()
        if kind == "subst":
            a, _, b = rest.partition("=>")
            pat = r"\s*".join(re.escape(x.s) for x in rustlex.lex(a.strip()))
            if not re.search(pat, t):
                raise vgen.Drift(f"{file}: no `{a.strip()}`")
            t = re.sub(pat, lambda m: b.strip(), t)
            o.dropped.append(f"{file}: `{a.strip()}` stands as `{b.strip()}`")
        elif rest.strip():
            try:
                items = rustlex.parse_items(t, rustlex.code_tokens(t))
            except (rustlex.LexError, AssertionError, IndexError, ValueError) as e:
                raise vgen.Drift(f"{file} cannot be parsed: {e}")
            mods = [i for i in items if i.kind == "mod" and i.name == rest.strip() and i.body]
            if not mods:
                raise vgen.Drift(f"{file}: no module {rest}")
            q = mods[0].body[1]
            q = q if t[q:q + 1] == "}" else q - 1
            t = t[:q] + "\n" + text + t[q:]
            texts += text
        else:
            t += "\n" + text
            texts += text
        open(p, "w").write(t)
    open(os.path.join(d, "Cargo.toml"), "w").write(CRATE.format(deps=native.deps(), alp=os.path.join(HERE, "shim", "alp-stub"), da="true" if spec.get("debug_assertions") else "false"))
    shutil.copy(os.path.join(HERE, "shim", "ebi-full", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return d, o, texts


def assemble(unit, spec=None):
    if spec and spec.get("crate"):
        return assemble_crate(unit, spec)
    d = os.path.join(native.BUILD, "kani", unit)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    o, _ = vgen.generate(os.path.join(HERE, "kani", unit + ".rs"))
    text = o.text.replace("@REPO@", native.REPO)
    open(os.path.join(d, "Cargo.toml"), "w").write(CARGO)
    open(os.path.join(d, "src", "lib.rs"), "w").write(text)
    return d, o, text


def kani(d, args, timeout=TIMEOUT):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=os.path.join(d, "target"))
    env.pop("RUSTUP_TOOLCHAIN", None)
    # a solver that runs away is undecided, not a danger to the machine
    mem = 14 << 30
    p = subprocess.run(["timeout", "-s", "KILL", str(timeout), "cargo", "kani"] + args, cwd=d, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace",
                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem)))
    return p.returncode, p.stdout


def parse(out):
    """Terse output of parallel runs: `Thread N: Checking harness H...`, later `Thread N:` and H's result."""
    hs, cur, parts, name = {}, {}, {}, None
    for line in out.split("\n"):
        m = re.match(r"(?:Thread (\d+): ?)?(.*)$", line, re.S)
        th, rest = m.groups()
        c = re.match(r"Checking harness (\S+?)\.\.\.", rest)
        if c:
            cur[th] = c.group(1)
            parts[c.group(1)] = ""
            name = c.group(1)
            continue
        if th is not None and th in cur:
            name = cur[th]
        if line.startswith("Manual Harness Summary"):
            name = None
        if name:
            parts[name] += rest + "\n"
    for name, part in parts.items():
        h = {"ok": "VERIFICATION:- SUCCESSFUL" in part, "checks": 0, "failed": [], "cover": None, "time": 0.0}
        m = re.search(r"\*\* (\d+) of (\d+) failed", part)
        if m:
            h["checks"] = int(m.group(2))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", part)
        if m:
            h["cover"] = (int(m.group(1)), int(m.group(2)))
        m = re.search(r"Verification Time: ([\d.]+)s", part)
        if m:
            h["time"] = float(m.group(1))
        for m in re.finditer(r"Failed Checks: (.*)\n(?:\s*File: \"([^\"]*)\", line (\d+), in (\S+))?", part):
            h["failed"].append({"msg": m.group(1), "file": m.group(2), "line": m.group(3), "fn": m.group(4)})
        # CBMC's warnings about floating point, which is defined in Rust
        fl = [f for f in h["failed"] if re.match(r"NaN on |arithmetic overflow on floating-point", f["msg"])]
        if fl:
            h["failed"] = [f for f in h["failed"] if f not in fl]
            if not h["failed"] and "VERIFICATION:- FAILED" in part:
                h["ok"] = True
        h["finished"] = "VERIFICATION:-" in part and "timed out" not in part
        hs[name] = h
    return hs


UNSUPPORTED = re.compile(r"unwinding assertion|is not currently supported|unsupported|reachability|Kani does not", re.I)


def run(unit, spec):
    """-> a unit result as check.do_unit gives"""
    t = time.time()
    out = {"unit": unit, "state": "undecided", "why": None, "contracts": [], "failures": [], "wall": 0.0, "kind": "kani"}
    try:
        d, o, text = assemble(unit, spec)
    except vgen.Drift as e:
        out["why"] = f"the items are not there: {e}"
        return out
    want = re.findall(r"#\[kani::proof\][^{]*?\bfn\s+(\w+)", text)
    out.update(drift=[], changed=o.changed, dropped=o.dropped, trusted=["Kani 0.68 with CBMC 6 and CaDiCaL"], file=os.path.join(d, "src", "lib.rs"),
               contracts=spec.get("covers", []))
    out["cmd"] = "cargo kani (in " + d + ")"
    rc, txt = kani(d, spec.get("args", []) + ["--no-assertion-reach-checks", "-j", str(spec.get("jobs", 8)), "--output-format=terse", "-Z", "unstable-options", "--harness-timeout", str(spec.get("timeout", 120)) + "s"])
    hs = parse(txt)
    out["wall"] = time.time() - t
    if not hs:
        out["why"] = "Kani gave no result: " + txt[-500:]
        return out
    done = {k.split("::")[-1]: v for k, v in hs.items()}
    out["functions"] = [(k, v["ok"], v["time"]) for k, v in hs.items()]
    out["smt_s"] = sum(v["time"] for v in hs.values())
    out["verified"] = sum(v["checks"] for v in hs.values() if v["ok"])
    undecided = [w for w in want if w not in done or not done[w]["finished"]]
    for name, h in hs.items():
        if h["ok"]:
            if h["cover"] and h["cover"][0] < h["cover"][1]:
                undecided.append(f"{name}: end not reachable (vacuous)")
            continue
        real = [f for f in h["failed"] if not UNSUPPORTED.search(f["msg"])]
        if h["finished"] and real and len(real) == len(h["failed"]):
            for f in real:
                out["failures"].append({"function": name, "obligation": f["msg"], "detail": json.dumps(f)})
        else:
            undecided.append(f"{name}: " + "; ".join(f["msg"] for f in h["failed"])[:200])
    if out["failures"]:
        out["state"] = "failed"
        # a counterexample to an inductive step starts from a state of the invariant, which need not be reachable:
        # only the oracle's own inputs count as failing inputs there
        for name in [] if spec.get("inductive") else sorted({f["function"] for f in out["failures"]})[:3]:
            pb = playback(d, name, text, spec)
            if pb:
                out["fail"] = dict(pb, unit=unit)
                break
    elif undecided:
        out["why"] = "not decided: " + ", ".join(undecided)
    else:
        out["state"] = "proved"
    return out


def playback(d, harness, text, spec):
    """Kani's counterexample, run natively against the same source."""
    rc, txt = kani(d, spec.get("args", []) + ["-Z", "concrete-playback", "--concrete-playback=print", "--harness", harness])
    for test in re.findall(r"```\n(.*?)```", txt, re.S)[:6]:
        r = "Check for `cover`" not in test and play(d, harness, test, text)
        if r:
            return r
    return None


def play(d, harness, test, text):
    tn = re.search(r"fn (kani_concrete_playback_\w+)", test).group(1)
    # the test goes into the module of the harness
    fn = harness.split("::")[-1]
    i = re.search(r"#\[kani::proof\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?fn\s+" + fn + r"\b", text)
    if not i:
        return None
    src = os.path.join(d, "src", "lib.rs")
    open(src, "w").write(text[:i.start()] + test + "\n" + text[i.start():])
    try:
        rc, txt = kani(d, ["playback", "-Z", "concrete-playback", "--", tn])
    finally:
        open(src, "w").write(text)
    if f"{tn} ... FAILED" not in txt:
        return None
    m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", txt)
    vals = re.findall(r"// (.*)\n\s*vec!\[([^\]]*)\]", test)
    return {"test": "kani:" + harness, "case": test, "msg": (m.group(1) + " " + m.group(2)) if m else txt[-400:],
            "input": "counterexample: " + ", ".join(v[0] for v in vals)}
