"""Status codes and the control macros (C27)."""
import itertools
import os
import re
import subprocess

import rcprbuild


def status_names(d):
    """what the headers define, as the preprocessor sees it."""
    m = subprocess.run(
        ["gcc", "-dM", "-E", *rcprbuild.includes(d), "-x", "c", "-"],
        input="#include <rcpr/status.h>\n#include <rcpr/component.h>\n",
        text=True, stdout=subprocess.PIPE, check=True).stdout
    codes = sorted(set(re.findall(r"^#define (ERROR_\w+)\s", m, re.M)))
    comps = sorted(set(re.findall(r"^#define (RCPR_COMPONENT_\w+)\s", m, re.M)))
    of = {c[len("RCPR_COMPONENT_"):]: c for c in comps}
    if "GLOBAL" in of:
        of["GENERAL"] = of["GLOBAL"]
    rows = []
    for n in codes:
        fit = [k for k in of if n.startswith("ERROR_" + k + "_")]
        rows.append(f"X({n}, {of[max(fit, key=len)] if fit else -1})")
    body = subprocess.run(
        ["gcc", "-E", "-P", *rcprbuild.includes(d), "-x", "c", "-"],
        input="#include <rcpr/component.h>\n",
        text=True, stdout=subprocess.PIPE, check=True).stdout
    fams = sorted(set(re.findall(r"\bCOMPONENT_FAMILY_\w+", body)))
    with open(os.path.join(d, "status_names.h"), "w") as f:
        f.write("#ifdef FAMILIES\n"
                + "\n".join(f"X({x})" for x in fams) + "\n#endif\n")
        f.write("#ifdef ERRORS\n" + "\n".join(rows) + "\n#endif\n"
                "#ifdef COMPONENTS\n"
                + "\n".join(f"X({c})" for c in comps) + "\n#endif\n")
    return len(codes)


def c27(c):
    c.mc("Status", "StatusMC4.cfg" if c.thorough else "StatusMC.cfg")
    rcprbuild.build_config(c.dir)
    c.cov["declared_statuses"] = status_names(c.dir)
    c.build("status", extra=["-I", c.dir])
    r = c.rng
    out = [["names"]]
    fields = [0, 1, 2, 254, 255, 256, 257, 32766, 32767, 32768, 65534, 65535]
    fields += [1 << k for k in range(16)] + [r.randrange(65536) for _ in range(20)]
    ops = []
    for e in (0, 1):
        for x in sorted(set(fields)):
            for y in sorted({f for f in fields if f < 32768}):
                ops.append(f"mk {e} {x} {y} {r.randrange(3)}")
    parts = sorted({f for f in fields if f < 256} | set(range(0, 256, 17)))
    ops += [f"cm {x} {y} {r.randint(0, 1)}" for x in parts for y in parts]
    out += [ops[i:i + 200] for i in range(0, len(ops), 200)]
    vals = [0, 5, -2147483647]
    runs = []
    for n in range(0, 4):
        for a in itertools.product(vals, repeat=n):
            for b in itertools.product(vals, repeat=n):
                runs.append((a, b))
    for _ in range(8000 if c.thorough else 1500):
        n = r.randint(3, 5)
        runs.append(tuple(tuple(
            r.choice([0, 0, 0, 1, -1, 7, r.randint(-2**31 + 1, 2**31 - 1)])
            for _ in range(n)) for _ in "ar"))
    ops = [f"run {how} {keep} " + " ".join(map(str, a + b))
           for a, b in runs for how in (0, 1) for keep in (0, 1)]
    out += [ops[i:i + 100] for i in range(0, len(ops), 100)]
    c.validate("status", "StatusTrace", c.run("status", out),
               cfg="StatusTrace.cfg")


CHECKS = {"C27": c27}
