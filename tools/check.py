#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402

MODULES = ["chk_containers", "chk_fibers", "chk_psock",
           "chk_async", "chk_conn", "chk_small", "chk_misc",
           "chk_proc", "chk_oom", "chk_vtable", "chk_letgo"]


def table():
    t = {}
    for m in MODULES:
        t.update(importlib.import_module(m).CHECKS)
    return t


if __name__ == "__main__":
    t = table()
    if len(sys.argv) != 2 or sys.argv[1] not in t:
        sys.exit(f"usage: check.py [{'|'.join(sorted(t))}]")
    ent = t[sys.argv[1]]
    fn, level = ent if isinstance(ent, tuple) else (ent, "model_checking")
    vlib.main(sys.argv[1], fn, level)
