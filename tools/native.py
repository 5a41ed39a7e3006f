"""Build the executable oracle against /repo's current source and run it.

The crate is assembled in .build/ebi: every entry of /repo/ebi/src is a symlink, lib.rs is /repo's own text plus
one appended line (`mod verif_native`), so the harness sees crate-private items and nothing of the code changes.
"""
import json
import os
import re
import shutil
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EBI_REPO", "/repo")
BUILD = os.environ.get("EBI_BUILD", os.path.join(HERE, ".build"))

CARGO = """[package]
name = "ebi"
version = "0.1.14"
edition = "2021"

[workspace]

[lib]
path = "src/lib.rs"
doctest = false

[[bin]]
name = "nat"
path = "src/nat_main.rs"

[dependencies]
{deps}
alp-binding = {{ path = "{alp}", optional = true }}

[features]
ffi_alp = ["dep:alp-binding"]
ffi = ["ffi_alp"]
default = ["ffi"]
{feats}

[profile.release]
opt-level = 1
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true
incremental = true
panic = "unwind"

[lints.rust]
unexpected_cfgs = "allow"
"""


def deps():
    t = open(os.path.join(HERE, "shim", "ebi-full", "Cargo.toml")).read()
    sec = t.split("[dependencies]")[1].split("[")[0]
    return "\n".join(l for l in t.split("[dependencies]")[1].split("\n[")[0].split("\n") if l.strip() and "alp-binding" not in l)


def suites():
    return sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "native")) if re.match(r"s_\w+\.rs$", f))


def assemble(dirname="ebi", only=None):
    root = os.path.join(BUILD, dirname)
    src = os.path.join(root, "src")
    os.makedirs(src, exist_ok=True)
    want = {}
    rs = os.path.join(REPO, "ebi", "src")
    for e in os.listdir(rs):
        if e not in ("lib.rs", "main.rs"):
            want[e] = os.path.join(rs, e)
    want["verif_native"] = os.path.join(HERE, "native")
    want["nat_main.rs"] = os.path.join(HERE, "native", "nat_main.rs")
    for e in os.listdir(src):
        p = os.path.join(src, e)
        if os.path.islink(p) and (e not in want or os.readlink(p) != want[e]):
            os.unlink(p)
    for e, t in want.items():
        p = os.path.join(src, e)
        if not os.path.islink(p):
            if os.path.exists(p):
                os.unlink(p)
            os.symlink(t, p)

    def put(p, t):
        if not (os.path.exists(p) and open(p).read() == t):
            open(p, "w").write(t)
    lib = open(os.path.join(rs, "lib.rs")).read()
    put(os.path.join(src, "lib.rs"), lib + "\n#[allow(warnings)]\n#[path = \"verif_native/harness.rs\"]\npub mod verif_native;\n")
    put(os.path.join(root, "Cargo.toml"), CARGO.format(deps=deps(), alp=os.path.join(HERE, "shim", "alp-stub"),
        feats="\n".join(f"{s} = []" for s in suites())))
    lock = os.path.join(root, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(HERE, "shim", "ebi-full", "Cargo.lock"), lock)
    return root


def build(features):
    """-> (path of the binary or None, compiler output)"""
    try:
        root = assemble()
    except OSError as e:
        return None, f"cannot assemble the harness crate: {e}"
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.87.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTFLAGS="-Awarnings")
    env["PATH"] = "/root/.cargo/bin:" + env["PATH"]
    p = subprocess.run(["cargo", "build", "--offline", "--release", "--bin", "nat", "--features", ",".join(features)],
                       cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout
    b = os.path.join(BUILD, "target", "release", "nat")
    return b, p.stdout


def run(binary, suite, seed, seconds, case=None, timeout=None):
    """-> dict(evals, distinct, fail=None|{test, case, msg}, tests={...})"""
    cmd = [binary, suite, str(seed), str(seconds)] + ([case] if case else [])
    try:
        p = subprocess.run(["timeout", "-s", "KILL", str(int(timeout or seconds * 3 + 60))] + cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace")
    except OSError as e:
        return {"error": str(e)}
    res = None
    start = None
    for line in p.stdout.split("\n"):
        if line.startswith("@RESULT "):
            res = json.loads(line[8:])
        elif line.startswith("@START "):
            start = line[7:]
    if res is None:
        # the harness process itself died: abort, stack overflow, endless loop or out of memory in the code under test
        if start:
            return {"evals": 0, "distinct": 0, "tests": {}, "samples": [],
                    "fail": {"test": start.split()[0], "case": start.split()[1],
                             "msg": f"the code under test did not return (harness exit {p.returncode}): " + p.stderr[-600:]}}
        return {"error": f"exit {p.returncode}: {p.stderr[-800:]}"}
    return res
