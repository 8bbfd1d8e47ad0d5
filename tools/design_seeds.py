#!/usr/bin/env python3
"""Print DESIGN.md's table of planted changes from seeded/*/meta.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AFTER = {
    "c06-release-stops": "a refused child spares nothing else (Must/Fails in Own)",
    "c11-uuid-strcmp": "families of ids that differ after zero bytes",
    "c14-user-pieces": "user-method reads that return pieces",
    "c16-exact-fit": "unread bytes recorded (`left`), strict exact-fit rule",
    "c17-large-first": "large writes at any fill",
    "c29-clone-allocator": "tracked user allocators per object",
    "c23-default-mxcsr": "fibers created under chosen control words",
    "c24-no-sentinel": "output variable starts as a plausible descriptor",
}
print("| change | what it breaks | needs | caught by |")
print("|---|---|---|---|")
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    a = m.get("after") or AFTER.get(i)
    print(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {m['property']}"
          + (f" (after: {a})" if a else "") + " |")
