#!/usr/bin/env python3
"""Setup: nothing has to be built ahead (every check builds what it needs); check that the tools are there."""
import shutil
import sys
missing = [t for t in ("verus", "cargo", "rustc", "timeout") if not shutil.which(t)]
print("missing tools: " + ", ".join(missing) if missing else "tools present")
sys.exit(0)
