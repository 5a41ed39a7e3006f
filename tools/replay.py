#!/usr/bin/env python3
"""replay.py FILE : run the failing input of a replay file against /repo's current code."""
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import native  # noqa: E402
r = json.load(open(sys.argv[1]))
if not r.get("failing_input"):
    print("no failing input was found; failed obligations:")
    print(json.dumps(r["failed_obligations"], indent=1))
    sys.exit(1)
if r["failing_input"]["test"].startswith("kani:"):
    import kani  # noqa: E402
    d, o, text = kani.assemble(r["failing_input"]["unit"])
    x = kani.play(d, r["failing_input"]["test"][5:], r["failing_input"]["case"], text)
    print("FAIL " + x["msg"] + " " + x["input"] if x else "PASS")
    sys.exit(1 if x else 0)
b, log = native.build([r["suite"]])
if b is None:
    print(log)
    sys.exit(2)
sys.exit(subprocess.run([b, r["property"], str(r["seed"]), "1", r["failing_input"]["case"]]).returncode)
