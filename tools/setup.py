#!/usr/bin/env python3
"""Check the tools and that every specification parses.  Builds nothing that
a check reuses: each check compiles /repo's current tree by itself."""
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")
for t in ("gcc", "java"):
    if not shutil.which(t):
        sys.exit(f"missing tool: {t}")
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    mods = sorted(f for f in os.listdir(V + "/spec") if f.endswith(".tla"))
    for f in mods:
        shutil.copy(os.path.join(V, "spec", f), d)
    for f in mods:
        p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", CP,
                            "tla2sany.SANY", f], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        if p.returncode != 0 or "*** Errors" in p.stdout:
            sys.exit(f"{f} does not parse:\n{p.stdout[-2000:]}")
    print(f"setup: {len(mods)} specifications parse")
finally:
    shutil.rmtree(d, ignore_errors=True)
