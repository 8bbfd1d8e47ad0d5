#!/usr/bin/env python3
"""Development tool: try planted changes (seeded/<id>) in scratch copies.

  seed.py make ID FILE     make seeded/<id>/patch.diff from an edit list
                           (python: EDITS = [(path, old, new), ...])
  seed.py demo ID...       demo on the unchanged copy and with the patch
  seed.py test ID...       + the stable tests with the patch
  seed.py catch ID...      run the property's quick check against the patch
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo/.", d])
    shutil.rmtree(d + "/_build", ignore_errors=True)
    return d


def build(d):
    s = open("/opt/vp/build.sh").read().replace("/repo", d)
    return sh(s)


def make(i, path):
    ns = {}
    exec(open(path).read(), ns)
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    for f, old, new in ns["EDITS"]:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            shutil.rmtree(d)
            sys.exit(f"{f}: old text found {s.count(old)} times")
        open(p, "w").write(s.replace(old, new))
    o = os.path.join(V, "seeded", i)
    os.makedirs(o, exist_ok=True)
    with open(o + "/patch.diff", "w") as f:
        f.write(sh("git diff", cwd=d).stdout)
    with open(o + "/meta.json", "w") as f:
        json.dump(ns["META"], f, indent=1)
    with open(o + "/demo.c", "w") as f:
        f.write(ns["DEMO"].lstrip("\n"))
    if not os.path.exists(o + "/demo.sh"):
        with open(o + "/demo.sh", "w") as f:
            f.write(DEMO_SH.replace("@FLAGS@", ns.get("FLAGS", "")))
        os.chmod(o + "/demo.sh", 0o755)
    shutil.rmtree(d)


DEMO_SH = """#!/bin/bash
# run in the repository after its build: 0 if the property holds here.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 3
trap 'rm -rf -- "$scratch"' EXIT
gcc -std=gnu11 -D_GNU_SOURCE -g -O1 -w -I include -I _build/lib/include -I . \\
    @FLAGS@ -o "$scratch/demo" "$here/demo.c" _build/lib/librcpr.a -lpthread \\
    || exit 3
cd "$scratch" && timeout 60 ./demo
"""


def demo(i, test=False):
    d = copy()
    out = []
    try:
        b = build(d)
        if b.returncode:
            return f"{i}: base build failed\n{b.stdout[-800:]}"
        r = sh(f"bash {V}/seeded/{i}/demo.sh", cwd=d)
        out.append(f"{i}: unchanged demo rc={r.returncode} {r.stdout[-300:]}")
        r = sh(f"git apply {V}/seeded/{i}/patch.diff", cwd=d)
        if r.returncode:
            return f"{i}: patch does not apply {r.stdout}"
        b = build(d)
        if b.returncode:
            return f"{i}: patched build failed\n{b.stdout[-1500:]}"
        r = sh(f"bash {V}/seeded/{i}/demo.sh", cwd=d)
        out.append(f"{i}: patched   demo rc={r.returncode} {r.stdout[-300:]}")
        if test:
            s = open("/opt/vp/test.sh").read().replace("/repo", d)
            bs = open("/opt/vp/build.sh").read().replace("/repo", d)
            open(d + "/../" + os.path.basename(d) + ".b.sh", "w").write(bs)
            s = s.replace("/opt/vp/build.sh", d + ".b.sh")
            open(d + ".t.sh", "w").write(s)
            r = sh(f"bash {d}.t.sh {d}.json")
            res = open(d + "/_build/results.txt").read().split("\n")
            bad = [x for x in res if x.startswith("FAIL")]
            out.append(f"{i}: tests pass={sum(x.startswith('PASS') for x in res)}"
                       f" fail={bad}")
            for e in (".b.sh", ".t.sh", ".json"):
                if os.path.exists(d + e):
                    os.unlink(d + e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return "\n".join(out)


def catch(i, prop=None):
    prop = prop or json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    d = copy()
    try:
        r = sh(f"git apply {V}/seeded/{i}/patch.diff", cwd=d)
        if r.returncode:
            return f"{i}: patch does not apply {r.stdout}"
        e = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
        r = sh(f"python3 {V}/tools/check.py {prop}", cwd=V, env=e)
        return (f"{i}: {prop} rc={r.returncode} "
                f"{'CAUGHT' if r.returncode == 1 else 'missed'} "
                + r.stdout.strip()[-400:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    c, a = sys.argv[1], sys.argv[2:]
    if a == ["all"]:
        a = sorted(os.listdir(V + "/seeded"))
    if c == "make":
        make(*a)
    elif c == "demo":
        with ThreadPoolExecutor(2) as ex:
            for x in ex.map(demo, a):
                print(x, flush=True)
    elif c == "test":
        with ThreadPoolExecutor(2) as ex:
            for x in ex.map(lambda i: demo(i, True), a):
                print(x, flush=True)
    elif c == "catch":
        for i in a:
            print(catch(*i.split("@")), flush=True)
