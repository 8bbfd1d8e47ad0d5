"""C31: letting go is complete, and failures in it are told."""

KINDS = ("trigger bigint clone stack mutex cond lock thread disc sched fiber list "
         "slist queue tree message buffer output methods desc br wrap msgdisc "
         "conddisc mailbox conditional string addfiber adddisc write write1 out "
         "shortraw shortbox shortstr").split()
WORLDS = {"wlist": (1, 4), "wslist": (1, 4), "wqueue": (1, 4), "wtree": (1, 7),
          "wmessage": (1, 3), "woutput": (0, 1, 3), "wbr": (0,), "wwrap": (0,),
          "wsched": tuple(range(32))}


def met(r, what):
    import json
    return not r.crash and any(e.get(what) for e in json.loads(r.trace))


def sweep(c, families, step=16):
    """Families (fault, script(n)): n goes on until the n-th is not met."""
    lo, out = 1, []
    while families:
        jobs = [(f, n) for f in families for n in range(lo, lo + step)]
        runs = c.run("letgo", [f[1](n) for f, n in jobs])
        out += runs
        on = [f for (f, n), r in zip(jobs, runs)
              if n == lo + step - 1 and met(r, f[0])]
        families, lo = on, lo + step
        if lo > 400:
            break
    return out


def c31(c):
    c.mc("Letgo", "LetgoMC.cfg")
    c.build("letgo")
    fam = []
    for k in KINDS:
        fam.append(("refused", lambda n, k=k: [f"make {k} 0", f"free {k} {n}"]))
        fam.append(("refused", lambda n, k=k: [f"make {k} {n}", f"free {k} 0"]))
        fam.append(("oom", lambda n, k=k: [f"!{n} make {k} 0"]))
        fam.append(("oom", lambda n, k=k: [f"!-{n} make {k} 0"]))
        fam.append(("oom", lambda n, k=k: [f"make {k} 0", f"!{n} free {k} 0"]))
        fam.append(("sys", lambda n, k=k: [f"make {k} 0", f"free {k} 0 {n}"]))
        for r in range(0, 12 if c.thorough else 6):
            fam.append(("sys", lambda n, k=k, r=r: [f"make {k} {r} {n}", f"free {k} 0"]))
            fam.append(("refused", lambda n, k=k, r=r: [f"make {k} 0", f"free {k} {n} {r}"]))
        # a part that cannot be had, and one of the others not handed back.
        for r in range(1, 24 if c.thorough else 12):
            fam.append(("oom", lambda n, k=k, r=r: [f"!{n} make {k} {r}"]))
    for w, ns in WORLDS.items():
        for m in ns:
            fam.append(("refused", lambda n, w=w, m=m: [f"build {w} {m}", f"free {w} {n}"]))
            fam.append(("oom", lambda n, w=w, m=m: [f"build {w} {m}", f"!{n} free {w} 0"]))
            fam.append(("sys", lambda n, w=w, m=m: [f"build {w} {m}", f"free {w} 0 {n}"]))
    runs = sweep(c, fam)
    c.cov["fault_scripts"] = len(runs)
    c.validate("letgo", "LetgoTrace", runs, cfg="LetgoTrace.cfg")
    # a queue of fibers lets go of the one whose node is refused.
    known = [["make sched 0", "free sched +1"],
             ["build wsched 2", "free wsched +1"]]
    runs = c.run("letgo", known)
    if not c.known_finding("run-queue-pop-refused", any(
            r.crash and "use-after-free" in r.crash for r in runs)):
        c.validate("letgo", "LetgoTrace", runs, cfg="LetgoTrace.cfg")


CHECKS = {"C31": c31}
