"""Fibers: scheduler, management, disciplines, mailboxes, conditionals."""
import re

import vlib

SCHED = "SchedTrace"


def head(n):
    return ["sched", f"fibs {n}", "mdg", "cdg"]


def line(o):
    return f"{o['op']} {o['a']} {o['b']} {o['c']} {o['d']}"


def from_graph(c, cfg, nfib, maxlen=80):
    edges = c.edges("Sched", f"Sched_{cfg}.cfg")
    edges = [(f, line(a[0]), t) for f, a, t in edges]
    n = c.cov.get("model_transitions_emitted", 0)
    c.cov["model_transitions_emitted"] = n + len(edges)
    return [head(nfib) + p
            for p in vlib.cover_edges(edges, edges[0][0], maxlen=maxlen)]


def from_sim(c, cfg, nfib, num, depth=60):
    out, seen = [], set()
    for b in c.simulate("Sched", f"Sched_{cfg}.cfg", num, depth):
        b = [line(o) for o in b]
        if tuple(b[:-1]) in seen:
            continue
        seen.add(tuple(b[:-1]))
        out.append(head(nfib) + b)
    return out


def volume(c, vol):
    """Many fibers, mailboxes, messages and waiters; long queues."""
    for cfg, n, num in vol:
        d = int(re.search(r"Depth = (\d+)", open(
            f"{vlib.VERIF}/spec/Sched_{cfg}.cfg").read())[1])
        c.validate("fiber", SCHED,
                   c.run("fiber", from_sim(c, cfg, n, num, d)),
                   cfg="SchedBig.cfg")


def checker(graphs, sims, deep=(), vol=()):
    def run(c):
        k = 12 if c.thorough else 1
        c.build("fiber")
        scripts = []
        for cfg, n in graphs + (tuple(deep) if c.thorough else ()):
            scripts += from_graph(c, cfg, n)
        for cfg, n, num in sims:
            scripts += from_sim(c, cfg, n, num * k)
        c.validate("fiber", SCHED, c.run("fiber", scripts),
                   cfg="SchedTrace.cfg")
        volume(c, [(x, n, num * k) for x, n, num in vol])
    return run


CHECKS = {
    "C09": checker((("base2", 2), ("idle0", 2), ("idle", 2)),
                   (("sim_base", 5, 300),), deep=(("base", 3),),
                   vol=(("sim_voc", 40, 2),)),
    "C10": checker((("req", 2), ("base2", 2)), (("sim_base", 5, 300),),
                   deep=(("base", 3),),
                   vol=(("sim_voc", 40, 3),)),
    "C11": checker((("disc", 1), ("idle", 2)), (("sim_disc", 4, 300),)),
    "C12": checker((("msg3", 3),), (("sim_msg", 5, 500), ("sim", 5, 200)),
                   deep=(("msg", 2),),
                   vol=(("sim_vom", 12, 2), ("sim_vol", 40, 2))),
    "C13": checker((("cond2", 2),), (("sim_cond", 5, 500), ("sim", 5, 200)),
                   deep=(("cond", 3),),
                   vol=(("sim_voc", 40, 3), ("sim_vol", 40, 1))),
    "C25": checker((("ux", 2),), (("sim", 5, 100),)),
}
