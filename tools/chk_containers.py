"""Containers: rbtree (C01, C02)."""
import vlib


# ---------------------------------------------------------------- rbtree --
def rb_alg_scripts(c, shape):
    n = 9 if c.thorough else 8
    edges = c.edges("RbAlg", f"RbAlg{n}.cfg")
    edges = [(f, tuple(a), t) for f, a, t in edges]
    c.cov["model_transitions_emitted"] = len(edges)
    paths = vlib.cover_edges(edges, edges[0][0], maxlen=70)
    out, nid = [], 0
    for p in paths:
        ops, ident = ["new 0"], 0
        for i, (a, k) in enumerate(p):
            if a == "ins":
                ident += 1
                ops.append(f"ins 0 {ident} {k}")
            else:
                ops.append(f"del 0 {k} {(k + i) % 2}")
            ops.append("shape 0" if shape else "walk 0")
        ops += [f"find 0 {k}" for k in range(1, n + 1)]
        out.append(ops)
    return out


def rb_random(c, n, shape, big=False, dup=False, oom=False):
    """Random histories over up to three trees."""
    out = []
    r = c.rng
    for _ in range(n):
        dirs = [r.choice((1, 1, -1)) for _ in range(3)]
        ops, ident = [f"new {t} {dirs[t]}" for t in range(3)], 0
        nk = r.choice([4, 8, 16, 32]) if not big else r.choice([100, 400])
        length = r.randint(20, 70) if not big else r.randint(300, 700)
        pin = r.choice([0.4, 0.55, 0.75])
        mode = r.choice(["rand", "asc", "desc", "zig"])
        have = {0: [], 1: [], 2: []}
        alive = {0, 1, 2}
        for i in range(length):
            t = r.choice(sorted(alive)) if alive else None
            if t is None or len(alive) < 3 and r.random() < .3:
                t = min({0, 1, 2} - alive)
                dirs[t] = r.choice((1, -1))
                ops.append(f"new {t} {dirs[t]}")
                alive.add(t)
                have[t] = []
                continue
            if big and r.random() < .85 and 0 in alive:
                t = 0
            x = r.random()
            pre = (f"!{r.randint(1, 3)} " if oom and r.random() < .25 else "")
            if x < pin:
                free = [k for k in range(nk) if k not in have[t]]
                if dup:
                    k = r.randrange(nk)
                elif not free:
                    continue
                else:
                    k = {"rand": r.choice(free), "asc": free[0],
                         "desc": free[-1],
                         "zig": free[0] if i % 2 else free[-1]}[mode]
                ident += 1
                ops.append(f"{pre}ins {t} {ident} {k}")
                # with a fault armed it may or may not be there now: a
                # single allocation is made, so "!1" is the one that fails.
                if pre != "!1 ":
                    have[t].append(k)
            elif x < pin + .12:
                ops.append(f"find {t} {r.randrange(nk)}")
            elif x < .9 or big:
                if have[t] and r.random() < .85:
                    j = r.randrange(len(have[t]))
                    if r.random() < .4:
                        w = sorted(have[t], key=lambda k: k * dirs[t]).index(
                            have[t][j])
                        ops.append(f"deln {t} {w} "
                                   f"{r.randint(0, 1)}")
                    else:
                        ops.append(f"del {t} {have[t][j]} {r.randint(0, 1)}")
                    have[t].pop(j)
                else:
                    k = r.randrange(nk)
                    ops.append(f"del {t} {k} 1")
                    if k in have[t]:
                        have[t].remove(k)
            elif x < .93:
                ops.append(f"clear {t}")
                have[t] = []
            elif x < .98 and len(alive) > 1:
                u = r.choice(sorted(alive - {t}))
                ops.append(f"swap {t} {u}")
                have[t], have[u] = have[u], have[t]
                dirs[t], dirs[u] = dirs[u], dirs[t]
                ops.append(f"walk {u}")
            else:
                ops.append(f"free {t}")
                alive.discard(t)
                have[t] = []
                continue
            if not big or i % 40 == 0:
                ops.append(f"shape {t}" if shape else f"walk {t}")
        for t in sorted(alive):
            ops.append(f"shape {t}" if shape else f"walk {t}")
        if big:
            ops += [f"find 0 {k}" for k in range(0, nk, 3)]
        out.append(ops)
    return out


def rb_huge(c, shape):
    """Trees of thousands of entries, filled in step with various strides,
    then emptied in another order."""
    out, r = [], c.rng
    look = "shape" if shape else "walk"
    for n, mod in (((5000, 5003), (3000, 3001)) if shape else
                   ((9000, 9001), (2000, 2003))):
        for d in (1, -1):
            s1, s2 = r.choice([1, mod - 1, 7]), r.randint(2, 60)
            m = n // 2
            out.append([f"new 0 {d}", "new 1", f"fill 0 1 {n} {s1} {mod}",
                        f"{look} 0", f"drain 0 {m} {s1} {mod}", f"{look} 0",
                        f"fill 0 {n + 1} {m} {s1} {mod}", f"{look} 0",
                        f"fill 1 {2 * n} 999 {s2} 1009", "swap 0 1",
                        f"{look} 1", f"{look} 0",
                        f"drain 1 {n} {s1} {mod}", f"{look} 1",
                        "clear 0", f"{look} 0"])
    if not shape:
        out.append(["new 0", "fill 0 1 66000 7 66037", "walk 0",
                    "drain 0 66000 7 66037", "walk 0"])
    return out


def c01(c):
    c.mc("Rbtree", "MCRbtree.cfg")
    c.build("rbtree")
    scripts = rb_alg_scripts(c, False)
    k = 8 if c.thorough else 1
    scripts += rb_random(c, 500 * k, False)
    scripts += rb_random(c, 60 * k, False, dup=True)
    scripts += rb_random(c, 16 * k, False, big=True)
    scripts += rb_huge(c, False)
    c.validate("rbtree", "RbtreeTrace", c.run("rbtree", scripts),
               cfg="RbtreeTrace.cfg")


def c02(c):
    c.build("rbtree", extra=["-DRB_SHAPE"])
    scripts = rb_alg_scripts(c, True)
    k = 8 if c.thorough else 1
    scripts += rb_random(c, 500 * k, True)
    scripts += rb_random(c, 24 * k, True, big=True)
    scripts += rb_huge(c, True)
    c.validate("rbtree", "RbtreeTrace", c.run("rbtree", scripts),
               cfg="RbShapeTrace.cfg")


# ------------------------------------------------------- slist/list/queue --
def sq_line(a):
    """A model action label as a script line."""
    return " ".join(str(x) for x in a)


def sq_model_scripts(c, kind):
    m = 4 if c.thorough else 3
    edges = c.edges("Seqs", f"Seqs_{kind}_{m}.cfg")
    edges = [(f, tuple(a), t) for f, a, t in edges]
    c.cov["model_transitions_emitted"] = len(edges)
    out = []
    look = "count" if kind == "queue" else "walk"
    for p in vlib.cover_edges(edges, edges[0][0], maxlen=80):
        ops, alive = [], set()
        for a in p:
            ops.append(sq_line(a))
            op = a[1] if str(a[0]).startswith("!") else a[0]
            q = a[2] if str(a[0]).startswith("!") else a[1]
            if op == "new" and op == a[0]:
                alive.add(q)
            elif op == "free":
                alive.discard(q)
            qs = sorted(alive) if op == "swap" else [q]
            ops += [f"{look} {x}" for x in qs if x in alive]
        ops += [f"{look} {x}" for x in sorted(alive)]
        if kind == "queue":
            ops += [f"pop {x}" for x in sorted(alive) for _ in range(m + 1)]
        out.append(ops)
    return out


def sq_random(c, kind, n, oom=False):
    out, r = [], c.rng
    look = "count" if kind == "queue" else "walk"
    for _ in range(n):
        ops, alive, ident = ["new 0", "new 1"], {0, 1}, 0
        ln = {0: 0, 1: 0, 2: 0}
        cap = r.choice([3, 6, 20])
        for _ in range(r.randint(10, 90)):
            if len(alive) < 3 and r.random() < .08 or not alive:
                q = min({0, 1, 2} - alive)
                ops.append(("!1 " if oom and r.random() < .3 else "")
                           + f"new {q}")
                if ops[-1][0] != "!":
                    alive.add(q)
                    ln[q] = 0
                continue
            q = r.choice(sorted(alive))
            x = r.random()
            pre = f"!{r.randint(1, 2)} " if oom and r.random() < .3 else ""
            grow = True
            i = r.randint(1, max(1, ln[q]))
            ident += 1
            if kind == "queue":
                if x < .55 and ln[q] < cap:
                    ops.append(f"{pre}{r.choice(['at', 'at', 'ih'])} {q} {ident}")
                elif x < .97:
                    ops.append(f"pop {q}")
                    ln[q] = max(0, ln[q] - 1)
                    grow = False
                else:
                    ops.append(f"free {q}")
                    alive.discard(q)
                    continue
            elif x < .5:
                if ln[q] >= cap:
                    continue
                o = r.choice(["at", "ih", "ap", "ap"]
                             + (["ib", "ib"] if kind == "list" else []))
                if o in ("ap", "ib"):
                    ops.append(f"{pre}{o} {q} {i} {ident}")
                    grow = ln[q] > 0
                else:
                    ops.append(f"{pre}{o} {q} {ident}")
            elif x < .62:
                ops.append(f"cs {q} {i} {r.choice([0, ident, ident])}")
                grow = False
            elif x < .72:
                ops.append(f"pop {q}")
                ln[q] = max(0, ln[q] - 1)
                grow = False
            elif x < .85 and kind == "slist":
                ops.append(f"np {q} {i}")
                if i < ln[q]:
                    ln[q] -= 1
                grow = False
            elif x < .95:
                u = r.choice(sorted(alive))
                ops.append(f"swap {q} {u}")
                ln[q], ln[u] = ln[u], ln[q]
                ops.append(f"{look} {u}")
                grow = False
            elif x < .975:
                ops.append(f"clear {q}")
                ln[q] = 0
                grow = False
            else:
                ops.append(f"free {q}")
                alive.discard(q)
                ln[q] = 0
                continue
            if grow and pre != "!1 ":
                ln[q] += 1
            ops.append(f"{look} {q}")
        ops += [f"{look} {x}" for x in sorted(alive)]
        out.append(ops)
    return out


def sq_big(c, kind, n):
    """Sequences of hundreds of elements."""
    out, r = [], c.rng
    look = "count" if kind == "queue" else "walk"
    ops_in = {"queue": ["at", "at", "at", "ih"], "list": ["at", "ih", "ap", "ib"],
              "slist": ["at", "ih", "ap"]}[kind]
    for _ in range(n):
        ops, ident, ln = ["new 0", "new 1"], 0, [0, 0]
        top = r.choice([130, 260, 300])
        for phase in range(4):
            for i in range(top if phase % 2 == 0 else top - 20):
                q = int(r.random() < .05)
                if phase % 2 == 0:
                    ident += 1
                    o = r.choice(ops_in)
                    if o in ("ap", "ib"):
                        ops.append(f"{o} {q} {r.randint(1, max(1, ln[q]))} {ident}")
                        ln[q] += ln[q] > 0
                    else:
                        ops.append(f"{o} {q} {ident}")
                        ln[q] += 1
                elif kind == "slist" and r.random() < .3 and ln[q] > 1:
                    ops.append(f"np {q} {r.randint(1, ln[q] - 1)}")
                    ln[q] -= 1
                else:
                    ops.append(f"pop {q}")
                    ln[q] = max(0, ln[q] - 1)
                if i % 60 == 59:
                    ops.append(f"{look} {q}")
            ops += [f"{look} 0", f"{look} 1"]
            if kind != "queue" and phase == 1:
                ops += ["swap 0 1", f"{look} 0", f"{look} 1"]
                ln.reverse()
        ops += [f"pop {q}" for q in (0, 1) for _ in range(ln[q] // 2)]
        ops += [f"{look} 0", f"{look} 1"]
        out.append(ops)
    return out


def sq_huge(c, kind):
    """Tens of thousands of elements."""
    n, m = 70000, c.rng.randint(300, 5000)
    look = "count" if kind == "queue" else "walk"
    out = [["new 0", f"fill 0 1 {n}", f"{look} 0", f"drain 0 {n - 3}",
            f"{look} 0", "at 0 70007", f"{look} 0", "drain 0 6", f"{look} 0",
            "fill 0 1 40000", "free 0"],
           ["new 0", "new 1", f"fill 0 1 {m}", "ih 0 79000", f"fill 1 {m + 1} 9",
            f"{look} 0", f"drain 0 {m // 2}", f"fill 0 {m + 20} {m}",
            f"{look} 0", f"{look} 1", f"drain 0 {2 * m + 9}", f"{look} 0",
            "at 0 79001", f"{look} 0"]]
    if kind != "queue":
        out.append(["new 0", "new 1", f"fill 0 1 {m}", "swap 0 1", "at 1 79002",
                    "walk 1", "walk 0", "clear 1", "walk 1", f"fill 1 1 {m}",
                    f"ap 1 {m - 1} 79003", f"cs 1 {m} 0", "walk 1", "free 1"])
    return out


SQ_DEF = {"slist": [], "list": ["-DUSE_LIST"], "queue": ["-DUSE_QUEUE"]}


def sq_check(kind):
    def run(c):
        c.build("seqs", extra=SQ_DEF[kind])
        scripts = sq_model_scripts(c, kind)
        scripts += sq_random(c, kind, 4000 if c.thorough else 500)
        scripts += sq_random(c, kind, 400 if c.thorough else 60, oom=True)
        scripts += sq_big(c, kind, 24 if c.thorough else 4)
        scripts += sq_huge(c, kind)
        c.validate("seqs", "SeqsTrace", c.run("seqs", scripts),
                   cfg="SeqsTrace.cfg")
    return run


CHECKS = {"C01": c01, "C02": c02, "C03": sq_check("slist"),
          "C04": sq_check("list"), "C05": sq_check("queue")}


# ------------------------------------------------------------- ownership --
def own_lines(c, label):
    """A model label as script lines; allocators are chosen here."""
    a = [str(x) for x in label]
    lines = []
    if a[0] == "^":                 # the next block handed back is refused
        lines, a = ["ru 1"], a[1:]
    i = 1 if a[0].startswith("!") else 0
    if a[i] == "new":
        a[i + 3] = str(c.rng.randint(0, 1))
    if a[i] in ("take", "drop"):
        a.append(str(c.rng.randint(0, 1)))
    return lines + [" ".join(a)]


def own_script(c, path):
    return [ln for a in path for ln in own_lines(c, a)]


def own_refusals(c, n):
    """Forests with resources and blocks that cannot be handed back, used on
    after the refusal."""
    out, r = [], c.rng
    for _ in range(n):
        ops, kinds = [], {}
        k, m = r.randint(1, 4), r.randint(0, 5)
        odds = r.choice([0, .2, .5])
        badone = r.randint(1, m) if m and r.random() < .6 else 0

        def leaf(x, bad):
            if r.random() < .2:
                ops.append(f"new {x} msg {r.randint(0, 1)}")
                if r.random() < .5 and m:
                    ops.append(f"leaf {x + 60} {bad}")
                    ops[-2:] = [ops[-1], ops[-2] + f" {x + 60}"]
            else:
                ops.append(f"leaf {x} {bad}")

        for x in range(1, k + 1):
            kinds[x] = r.choice(["slist", "list", "queue", "tree"])
            ops.append(f"new {x} {kinds[x]} {r.randint(0, 1)}")
        for y in range(1, m + 1):
            leaf(k + y, 1 if y == badone or r.random() < odds else 0)
            ops.append(f"put {r.randint(1, k)} {k + y}")
        for x in range(2, k + 1):
            ops.append(f"put {r.randint(1, x - 1)} {x}")
        if r.random() < .1:
            ops.append(f"new {k + m + 1} msg 0 1")
        nxt = 20
        for _ in range(r.randint(1, 5)):
            root = r.randint(1, k)
            if r.random() < .5:
                ops.append(f"ru {r.randint(1, r.choice([1, 2, k + m + 3]))}")
            what = r.random()
            if what < .3:
                ops.append(f"?clear {root}")
            elif what < .5:
                ops.append(f"?{'take' if r.random() < .3 else 'drop'} {root} "
                           f"{r.randint(1, k + m)} {r.randint(0, 1)}")
            elif what < .7:
                ops.append(f"?pop {root}")
            elif what < .8:
                ops.append(f"?np {root} {r.randint(1, 3)}")
            elif what < .9:
                ops.append(f"leaf {nxt} {r.randint(0, 1)}")
                ops.append(f"?{'put' if kinds[root] == 'tree' else r.choice(['put', 'puth'])} "
                           f"{root} {nxt}")
                nxt += 1
            else:
                ops.append(f"?free {r.randint(1, k + m + 1)}")
        if r.random() < .5:
            ops += [f"ru {r.randint(1, k + m + 3)}", "?free 1"]
        out.append(ops)
    return out


def own_big(c):
    """Wide and deep forests."""
    out, r = [], c.rng
    for kind in ("slist", "list", "queue", "tree"):
        ops = [f"new 1 {kind} 0", f"new 2 {kind} 1"]
        ids = list(range(3, 303))
        r.shuffle(ids)
        for x in ids:
            ops += [f"leaf {x} 0", f"put {1 if x % 10 else 2} {x}"]
        if kind == "tree":
            ops += [f"{r.choice(['take', 'drop'])} 1 {x} {r.randint(0, 1)}"
                    for x in ids[:60] if x % 10]
        else:
            ops += ["pop 1"] * 40
        if kind != "queue":
            ops += ["swap 1 2", f"clear {r.randint(1, 2)}"]
        ops += ["free 1", "free 2"]
        out.append(ops)
    for _ in range(3):
        ops = []
        for x in range(1, 61):
            ops += [f"new {x} {r.choice(['slist', 'list', 'queue', 'tree'])} "
                    f"{r.randint(0, 1)}"]
        for x in range(59, 0, -1):
            ops += [f"leaf {x + 100} 0", f"put {x} {x + 100}", f"put {x} {x + 1}"]
            if x % 9 == 0:
                ops += [f"new {x + 200} msg {r.randint(0, 1)} {x}",
                        f"pop {x + 200}", f"free {x + 200}"]
        ops += ["free 1"]
        out.append(ops)
    return out


def c06(c):
    for m in "ABCDEF" if c.thorough else "AE":
        c.mc("Own", f"OwnMC{m}.cfg")
    c.build("own")
    scripts = []
    for cfg in (["all"] if c.thorough else ["a", "b"]):
        edges = [(f, tuple(a), t)
                 for f, a, t in c.edges("Own", f"Own_edges_{cfg}.cfg")]
        c.cov["model_transitions_emitted"] = (
            c.cov.get("model_transitions_emitted", 0) + len(edges))
        scripts += [own_script(c, p)
                    for p in vlib.cover_edges(edges, edges[0][0], maxlen=80)]
    scripts += [own_script(c, p)
                for p in c.simulate("Own", "Own_sim.cfg",
                                    20000 if c.thorough else 800, 62)]
    scripts += own_refusals(c, 10000 if c.thorough else 1200)
    c.validate("own", "OwnTrace", c.run("own", scripts), cfg="OwnTrace.cfg")
    c.validate("own", "OwnTrace", c.run("own", own_big(c)), cfg="OwnBig.cfg")


CHECKS["C06"] = c06
