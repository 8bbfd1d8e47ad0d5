"""Descriptor helpers (C22)."""
import json

import vlib


def lay(lim, t):
    return f"lay {lim} " + " ".join(t)


def c22(c):
    c.build("fds")
    c.mc("Desc", "DescMC.cfg")
    if c.thorough:
        c.mc("Desc", "DescMC3.cfg")
    r, out = c.rng, []
    plans = [a for _, a, _ in c.edges("Desc", "Desc_edges.cfg")]
    c.cov["model_transitions_emitted"] = len(plans)
    if not c.thorough and len(plans) > 2500:
        plans = r.sample(plans, 2500)
    for p in plans:
        n = len(p["b"])
        out.append([lay(64, [f"{x}:{x}" for x in sorted(p["lay"])]),
                    f"mv {p['thr']} " + " ".join(map(str, p["b"])),
                    "sf " + " ".join(f"v{i} {p['to'][i]}" for i in range(n)) + " -1",
                    f"co {max(p['to'])}"])
    # random histories with shared files, failures and tight limits.
    for _ in range(4000 if c.thorough else 700):
        lim = r.choice([8, 12, 16, 64])
        fds = sorted(r.sample(range(lim), r.randint(1, min(lim, 12))))
        files = {x: r.randrange(10) for x in fds}
        fl = {f: "".join(k for k in "nap" if r.random() < .3) for f in range(10)}
        fl = {f: "o" if r.random() < .1 else fl[f] for f in fl}
        ops = [lay(lim, [f"{x}:{files[x]}" + (f":{fl[files[x]]}" if fl[files[x]]
                                              else "") for x in fds])]
        for _ in range(r.randint(1, 8)):
            x = r.random()
            if x < .4:
                k = r.randint(1, min(5, len(fds)))
                v = r.sample(fds, k)
                if r.random() < .15:
                    v[r.randrange(k)] = r.choice([-1, lim - 1, lim + 3])
                if len(set(v)) < len(v):
                    continue
                thr = r.choice([r.randint(0, lim), r.randint(0, 5),
                                -1 if r.random() < .2 else 3])
                ops.append(f"mv {thr} " + " ".join(map(str, v)))
            elif x < .65:
                k = r.randint(1, min(4, len(fds)))
                src = r.sample(fds, k)
                dst = []
                for s in src:
                    y = [d for d in list(range(lim)) + [lim + 1]
                         if d not in src and d not in dst]
                    if r.random() < .15:
                        dst.append(s)
                    elif y:
                        dst.append(r.choice(y))
                if len(dst) < k:
                    continue
                q = [str(z) for p in zip(src, dst) for z in p]
                if r.random() < .1:
                    q = q[:-1]
                if r.random() < .05:
                    q = ["-1"]
                ops.append("sf " + " ".join(q) + " -1")
            elif x < .75:
                ops.append(f"co {r.randint(-1, lim)}")
            elif x < .8:
                ops.append("cs")
            elif x < .92:
                ops.append(f"nb {r.choice(fds + [lim - 1])}")
            else:
                ops.append("pr " + r.choice(["good", "good", "bad", "dgram"]))
        out.append(ops)
    # many descriptors at once.
    for _ in range(400 if c.thorough else 80):
        lim = r.choice([64, 100])
        n = r.randint(6, 24)
        fds = r.sample(range(50), n + r.randint(0, 10))
        v, to = fds[:n], r.sample(range(lim), n)
        thr = r.choice([n, 30, 40, 64])
        ops = [lay(lim, [f"{x}:{k}" for k, x in enumerate(fds)]),
               f"mv {thr} " + " ".join(map(str, v))]
        if r.random() < .6:     # hand them over at the low numbers
            to = r.sample(range(n), n)
        q = " ".join(f"v{i} {to[i]}" for i in range(n))
        ops += [f"sf {q} -1", f"co {r.choice([n - 1, max(to)])}"]
        out.append(ops)
    # every edge of close_other_fds and of the table's size.
    for top in (60, 255, 256, 1022, 1023):
        out.append([lay(2048, ["0:0", "1:1", f"{top}:2", f"{top - 1}:3"]),
                    f"co {top - 1}", f"co {top - 2}", "co 0"])
    out.append([lay(2048, ["0:0", "3:1", "1023:2", "1024:3", "1500:4"]), "co 2",
                "co 1023"])
    out.append([lay(2048, ["3:1", "1500:4"]), "mv 1200 3 1500", "nb 1200"])
    out.append(["pr bad", "pr good", "pr dgram", "nb v0", "mv 20 v0 v1",
                "sf v1 0 v0 1 -1", "co 1", "nb 0"])
    out[-1].insert(0, lay(32, ["0:0", "1:1", "2:2"]))
    out.append([lay(16, ["0:0", "3:1", "4:2:p", "5:3:pn", "6:4:pa"]), "nb 4",
                "nb 5", "nb 6", "nb 3", "nb 4", "sf -1 -1", "sf 4 -1 -1",
                "sf 4 4 -1", "mv 10 4 5 6", "nb v0", "nb 15", "co 3"])
    out.append([lay(16, ["0:0", "3:1:o", "4:1", "5:2"]), "nb 3", "nb 4", "nb 5",
                "mv 9 3 5", "nb 4", "nb v0", "nb v1", "sf v0 3 v1 5 -1", "nb 3"])
    for lim in (3, 4, 5):
        out.append([lay(lim, ["0:0", "1:1", "2:2"]), "pr good", "pr good", "cs",
                    "pr good"])
    ops = [lay(32, ["0:0"])]
    for bits in (16, 32, 64):
        vals = {0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1}
        vals |= {0xff << k for k in range(0, bits, 8)} | {1 << k for k in range(bits)}
        vals |= {r.getrandbits(bits) for _ in range(20)}
        vals |= {int.from_bytes(bytes(range(1, bits // 8 + 1)), "big")}
        ops += [f"hn {bits} {v:x}" for v in sorted(vals)]
    out.append(ops)
    tr = c.run("fds", out)
    c.validate("fds", "DescTrace", tr, cfg="DescTrace.cfg")
    c.known_finding("close-other-fdsetsize", any(
        e.get("op") == "co" and any(x[0] > e["fd"] for x in e["tab"])
        for t in tr if t.trace for e in json.loads(t.trace)))


PFAIL = {"lk": ["mutex_lock"], "ul": ["mutex_unlock"], "wt": ["cond_wait"],
         "s1": ["cond_signal"], "sa": ["cond_broadcast"], "jn": ["join"],
         "tn": ["attr_init", "attr_setstacksize", "create"],
         "mk": ["mutex_init", "cond_init", "mutex_destroy", "cond_destroy"]}


def c21(c):
    c.build("threads")
    c.mc("Threads", "ThreadsMC2.cfg")
    if c.thorough:
        c.mc("Threads", "ThreadsMC3.cfg", timeout=1800)
    r, out = c.rng, []
    edges = [(f, " ".join(map(str, a)), t)
             for f, a, t in c.edges("Threads", "Threads_edges.cfg")]
    c.cov["model_transitions_emitted"] = len(edges)
    for p in vlib.cover_edges(edges, edges[0][0], maxlen=40):
        out.append(["tn 0", "tn 1", "tn 2"] + p)
    kinds = [("lk", 5), ("ul", 5), ("wt", 4), ("s1", 2), ("sa", 1), ("ex", .3),
             ("jn", .3), ("tn", .5), ("mk", .2)]
    for _ in range(4000 if c.thorough else 500):
        n = r.randint(2, 7)
        ops = [f"tn {i}" + (" big" if r.random() < .1 else "") for i in range(n)]
        for _ in range(r.randint(10, 50)):
            k = r.choices([k for k, _ in kinds], [w for _, w in kinds])[0]
            if k == "lk":
                ops.append(f"lk {r.randrange(2)} {r.randrange(8)}")
            elif k == "ul":
                ops.append(f"ul {r.randrange(2)}")
            elif k in ("wt", "s1", "sa"):
                ops.append(f"{k} {r.choice([0, 0, 1, 2])}")
            elif k == "ex":
                v = r.choice([0, 1, 77, -1, 2**31 - 1, -2**31 + 1,
                              r.randrange(1 << 30)])
                ops.append(f"ex {r.randrange(8)} {v}")
            elif k == "jn":
                ops.append(f"jn {r.randrange(7)}")
            elif k == "tn":
                f = r.choice(["", "!1 "])
                ops.append(f"{f}tn {r.randrange(7)} "
                           f"{r.choice(['plain', 'big', 'tiny', 'huge']) if not f else ''}")
            else:
                ops.append(f"{r.choice(['', '!1 '])}mk {r.choice(['mutex', 'cond'])}")
            if r.random() < .15 and not ops[-1].startswith("!"):
                f = PFAIL.get(ops[-1].split()[0])
                if f:
                    ops.insert(-1, "pf " + r.choice(f))
        out.append(ops)
    # every platform call that can fail, each block refused or not.
    for kind, f in (("mutex", ["mutex_init", "mutex_destroy"]),
                    ("cond", ["cond_init", "cond_destroy"]),
                    ("thread", ["attr_init", "attr_setstacksize", "create",
                                "join"])):
        for x in [None] + f:
            for n in (0, 1):
                for pre in (("", "!1 ") if x is None or "destroy" in x
                            or x == "join" else ("",)):
                    if pre and x:
                        continue
                    out.append(["tn 0", "lk 0 0"]
                               + (["pf " + x] if x else [])
                               + [f"{pre}mk {kind} {n}", f"mk {kind}", "ul 0"])
    # crowds: many waiters on one condition, many lockers of one mutex.
    for _ in range(40 if c.thorough else 8):
        n = r.choice([9, 16, 17, 22])
        v = r.randrange(3)
        m = v % 2
        ops = [f"tn {i}" for i in range(n)]
        for _ in range(n - 1):
            ops += [f"lk {m} {r.randrange(24)}", f"wt {v}"]
        for _ in range(r.randint(0, 5)):
            ops += [f"lk {m} 0", f"s1 {v}", f"ul {m}", f"ul {m}"]
        ops += [f"lk {m} 0", f"sa {v}"] + [f"ul {m}"] * (n + 1)
        k = r.randint(0, 5)
        ops += [f"lk {m} {k}"] * n + [f"ul {m}"] * n
        out.append(ops)
    out.append(["!1 mk mutex", "!1 mk cond", "mk mutex", "mk cond", "!1 tn 0",
                "tn 0 tiny", "tn 0 huge", "tn 0 big", "ex 0 9", "jn 0"])
    c.validate("threads", "ThreadsTrace", c.run("threads", out),
               cfg="ThreadsTrace.cfg")


def ctx_scripts(c, mode):
    r, out = c.rng, []
    edges = [(f, " ".join(map(str, a)), t)
             for f, a, t in c.edges("Context", "Context_edges.cfg")]
    c.cov["model_transitions_emitted"] = len(edges)
    for p in vlib.cover_edges(edges, edges[0][0], maxlen=50):
        out.append(["cr 0"] + p)
    if mode == "proto":
        for m in range(4):
            out += [[f"cr {m}"]] + [[f"!{k} cr {m}"] for k in (1, 2)]
        for k in (1, 2, 3):
            out.append(["cr 0", f"!{k} fn 1", "fn 1 0 9", "ad 1 1 0 17 -1 3", "sw 0 0 5 6 7"])
        evs = [5, 255, 4096, 8191, 65535, 2**31 - 1, -1, -2**31]
        for e in evs:
            out.append(["cr 0", "fn 1", f"ad 1 1 0 {e} 4 3", f"sw 0 3 {e} 6 7 {e} 9",
                        f"sw 1 0 {e} -1 7 {e} -1", f"ru 0 4 {e} 3 2",
                        f"er {e} 4", f"ex {e} 0 1 {e} 2"])
    for _ in range(4000 if c.thorough else 500):
        ops = ["cr 0"]
        n = r.randint(1, 7)
        w = ([3, 3, 10, 1, 2, 1, 3, 2, 1, .6] if mode == "proto"
             else [2, 2, 20, .3, 1, .3, 5, 4, .2, .2])
        for _ in range(r.randint(10, 90)):
            k = r.choices(["fn", "ad", "sw", "er", "ru", "ex", "dp", "up",
                           "ea", "eu"], w)[0]
            seed = r.randrange(1, 2**31)
            to, d, par = r.randrange(n + 1), r.randint(0, 4), r.randint(-1, 90)
            ev = r.choice([0, 1, 16, 17, 18, 19, 32, r.randrange(2**31)])
            f = r.randint(1, n)
            ops.append({
                "fn": f"{r.choice(['', '', '', '!1 ', '!2 ', '!3 '])}fn {f} "
                      f"{r.choice([0, 20000, 16384, 65536, 30001, 40007])} "
                      f"{r.choice([0, seed])}",
                "ad": f"ad {f} {r.choice([to, f, 0])} {d} {ev} {par} {seed}",
                "sw": f"sw {to} {d} {ev} {par} {seed} "
                      f"{r.choice([8192, 4096, 4097, 9999])} {r.randint(-1, 90)}",
                "er": f"er {r.choice([1, 77, -5, 2**31 - 1])} {seed} {to}",
                "ea": f"ea {f} {r.choice([1, 77, -5])} {seed} "
                      f"{r.choice([to, f])}",
                "eu": f"eu {r.choice([1, 77, -5])} {seed} {to}",
                "ru": f"ru {to} {d} {ev} {par} {seed}",
                "ex": f"ex {r.choice([0, 0, 44, -1, 2**31 - 1])} {to} {d} {ev} {par}",
                "dp": "dp", "up": "up"}[k])
        out.append(ops)
    return out


def ctx_check(mode):
    def run(c):
        c.build("ctx")
        c.mc("Context", "ContextMC.cfg")
        if c.thorough:
            c.mc("Context", "ContextMC4.cfg", timeout=1800)
        c.validate("ctx", "ContextTrace", c.run("ctx", ctx_scripts(c, mode)),
                   cfg="ContextTrace.cfg")
    return run


CHECKS = {"C21": c21, "C22": c22, "C23": ctx_check("regs"),
          "C26": ctx_check("proto")}
