"""C28: method tables are checked before anything of them is called."""
import vlib
import chk_async
import chk_containers
import chk_fibers
import chk_psock


def own_forged(c, n):
    """Random forests in which some objects, or an allocator, are forged."""
    out, r = [], c.rng
    for _ in range(n):
        ops, kinds = [], {}
        k, m = r.randint(1, 4), r.randint(0, 5)
        for x in range(1, k + 1):
            kinds[x] = r.choice(["slist", "list", "queue", "tree"])
            ops.append(f"new {x} {kinds[x]} {r.randint(0, 1)}")
        for y in range(1, m + 1):
            if r.random() < .3:
                ops += [f"leaf {k + y + 60} 0",
                        f"new {k + y} msg {r.randint(0, 1)} {k + y + 60}"]
                if r.random() < .3:
                    ops.append(f"forge {k + y + 60} {r.randint(0, 4)}")
            else:
                ops.append(f"leaf {k + y} {int(r.random() < .1)}")
            ops.append(f"put {r.randint(1, k)} {k + y}")
        for x in range(2, k + 1):
            ops.append(f"put {r.randint(1, x - 1)} {x}")
        nxt = 12
        for _ in range(r.randint(2, 8)):
            root = r.randint(1, k)
            what = r.random()
            if what < .35:
                ops.append(f"?forge {r.randint(1, k + m)} {r.randint(0, 4)}")
            elif what < .45:
                ops.append(f"?fa {r.randint(0, 1)} {r.randint(0, 4)}")
                for _ in range(r.randint(1, 3)):
                    if r.random() < .3:
                        ops.append(f"new {nxt} "
                                   f"{r.choice(['slist', 'list', 'queue', 'tree', 'msg'])}"
                                   f" {r.randint(0, 1)}")
                    else:
                        root = r.randint(1, k)
                        ops.append(f"leaf {nxt} 0")
                        ops.append(f"?put {root} {nxt}")
                    nxt += 1
                ops.append("mend")
            elif what < .5:
                ops.append("mend")
            elif what < .6:
                ops.append(f"?clear {root}")
            elif what < .68:
                ops.append(f"?{r.choice(['take', 'drop'])} {root} "
                           f"{r.randint(1, k + m)} {r.randint(0, 1)}")
            elif what < .74:
                ops.append(f"?pop {root}")
            elif what < .78:
                ops.append(f"?np {root} {r.randint(1, 3)}")
            elif what < .84 and nxt < 25:
                ops.append(f"leaf {nxt} 0")
                ops.append(f"?put {root} {nxt}")
                nxt += 1
            else:
                ops.append(f"?free {r.randint(1, k + m)}")
        if r.random() < .7:
            ops.append("?free 1")
        out.append([o for o in ops if "new" not in o or nxt <= 26])
    return out


def forge_places(c, path):
    """A place for each forged table."""
    return [ln + f" {c.rng.randint(0, 4)}" if ln.startswith("forge") else ln
            for ln in chk_containers.own_script(c, path)]


def c28(c):
    c.enforce = True
    c.mc("Own", "OwnMCG.cfg")
    c.build("own")
    scripts = []
    for cfg in (("fa2", "fb2") if c.thorough else ("fa", "fb")):
        edges = [(f, tuple(a), t)
                 for f, a, t in c.edges("Own", f"Own_edges_{cfg}.cfg")]
        c.cov["model_transitions_emitted"] = (
            c.cov.get("model_transitions_emitted", 0) + len(edges))
        scripts += [forge_places(c, p)
                    for p in vlib.cover_edges(edges, edges[0][0], maxlen=80)]
    scripts += own_forged(c, 10000 if c.thorough else 1200)
    c.validate("own", "OwnTrace", c.run("own", scripts), cfg="OwnTrace.cfg")
    c.build("vtab")
    c.validate("vtab", "VtabTrace", c.run("vtab", kinds_forged(c)),
               cfg="VtabTrace.cfg")
    c.build("psock")
    c.validate("psock", "StreamTrace", c.run("psock", psock_forged(c)),
               cfg="StreamTrace.cfg", batch=60000)
    c.build("async")
    c.validate("async", "AsyncTrace", c.run("async", async_forged(c)),
               cfg="AsyncTrace.cfg", batch=40000)
    c.build("fiber")
    c.validate("fiber", "SchedTrace", c.run("fiber", fibers(c)),
               cfg="SchedTrace.cfg")


KINDS = ("malloc bump user trigger bigint fiber sched disc list slist queue "
         "tree message desc buffer br methods stack mutex lock cond "
         "thread").split()


def kinds_forged(c):
    """The model's transitions, for one object of every kind."""
    out, r = [], c.rng
    edges = [(f, tuple(a), t) for f, a, t in c.edges("Vtab", "Vtab.cfg")]
    c.cov["model_transitions_emitted"] += len(edges)

    def text(a):
        return " ".join(a) + (f" {r.randint(0, 4)}" if a[0] == "forge" else "")
    out += [[text(a) for a in p]
            for p in vlib.cover_edges(edges, edges[0][0], maxlen=60)]
    for k in KINDS:
        for place in range(5):
            out.append([f"make {k}", f"vt {k}", f"forge {k} {place}", f"vt {k}",
                        f"release {k}", f"release {k}", f"mend {k}", f"vt {k}",
                        f"release {k}"])
    for _ in range(400 if c.thorough else 60):
        ops, live, forged = [], set(), set()
        for _ in range(r.randint(5, 40)):
            k = r.choice(KINDS)
            if k not in live:
                ops.append(f"make {k}")
                live.add(k)
                continue
            x = r.random()
            if x < .3 and k not in forged:
                ops.append(f"forge {k} {r.randint(0, 4)}")
                forged.add(k)
            elif x < .5 and k in forged:
                ops.append(f"mend {k}")
                forged.discard(k)
            elif x < .8:
                ops.append(f"release {k}")
                if k not in forged:
                    live.discard(k)
            elif k in KINDS[:3]:
                ops.append(f"call {k} " + r.choice(
                    ["allocate", "realloc", "reclaim", "control"]))
            else:
                ops.append(f"vt {k}")
        out.append(ops)
    return out


def psock_forged(c):
    """Every method of every kind of psock with a forged table, and of the
    readers that work over it; then the same again once it is put right."""
    out, r = [], c.rng
    hx = chk_psock.hx

    def value(t):
        return chk_psock.rvalue(r, t) if t < 9 else b"abcdef"

    # what was written before is read afterwards, whatever was tried between.
    for kind in (0, 1, 2, 3, 4, 5, 6, 7, 8):
        for t in range(11):
            for b in ((1,) if t == 9 else (0, 1)):
                for place in (range(5) if c.thorough else [r.randint(0, 4)]):
                    v = value(t)
                    ops = [f"open {kind}" + (" " + hx(chk_psock.enc(b, t, v))
                                             if kind == 3 else "")]
                    w, rd = f"w {b} {t} {hx(v)}", chk_psock.read_of(b, t, v)
                    if kind == 3:
                        ops += [f"forge r {place}", rd, "frel", "mend", rd]
                    else:
                        ops += [f"forge w {place}", w, "frel", "mend", w,
                                f"forge w {r.randint(0, 4)}", w, "mend"]
                        if kind != 2:
                            ops += [f"forge r {place}", rd, "frel", "mend", rd]
                    if kind in (0, 1, 5):
                        ops += [f"forge r {place}", "x" + w[1:], "mend",
                                f"forge b {place}", "x" + w[1:], "mend",
                                "x" + w[1:]]
                    if kind == 2:
                        ops += ["flip"]
                        ops += [f"forge r {place}", rd, "mend", rd]
                    out.append(ops)
    # a reader goes on with what it has.
    for _ in range(1500 if c.thorough else 250):
        kind = r.choice([1, 3, 5, 7, 8])
        data = bytes(r.choice([10, 97, 98]) for _ in range(r.randint(0, 30)))
        ops = [f"open {kind}" + (f" {hx(data)}" if kind == 3 else ""),
               "seg " + " ".join(str(r.randint(0, 7))
                                 for _ in range(r.randint(1, 6)))]
        if kind != 3 and data:
            ops.append("f " + hx(data))
        if kind != 3 and r.random() < .3:
            ops.append("c")
        for _ in range(r.randint(2, 12)):
            x = r.random()
            if x < .3:
                what = r.choice("rb" + "m" * (kind == 5) + "w" * (kind < 3))
                if what != "w" or "c" not in ops:
                    ops.append(f"?forge {what} {r.randint(0, 4)}")
            elif x < .45:
                ops.append("mend")
            elif x < .5:
                ops.append("frel")
            else:
                ops.append(r.choice([f"rl {r.choice([2, 3, 8, 40])}"] * 2
                                    + [f"rr {r.randint(1, 9)}"] * 2
                                    + ["r 0 7", "r 0 5"]))
        out.append(ops)
    # optional methods, and what a psock cannot do.
    for kind in (4, 6, 7, 8):
        for m in ("accept", "sendmsg", "recvmsg", "opt"):
            for o in "rb":
                p = r.randint(0, 4)
                out.append([f"open {kind}", f"um {m}", f"forge {o} {p}",
                            f"um {m}", "frel", "mend", f"um {m}"])
    for kind in (3, 4, 6):
        for m in ("sdesc", "rdesc"):
            out.append([f"open {kind} 6162", f"forge r {r.randint(0, 4)}",
                        f"no {m} 0", "mend", f"no {m} 0"])
    return out


def async_forged(c):
    """Wrapped sockets in ordinary use, with methods tried now and then on a
    wrapper, or on what it wraps, whose table is forged."""
    out, r = [], c.rng
    methods = {chk_async.STREAM: ("r", "rr", "w"), chk_async.BR: ("rr", "w"),
               chk_async.LISTEN: ("ac",), chk_async.DGRAM: ("sd", "rd")}
    for k, ms in methods.items():
        for what in "wi":
            for m in ms + ("rel", "so"):
                for place in range(5):
                    f = f"fg 0 {what} {place} {m}"
                    out.append([f"open 0 {k} 0", f, "fibs 1", f, f"fcl 0 {place}",
                                f"open 0 {k} 0", f, "y", "pk 0", "pf 0 0102"])
    base = (chk_async.random_streams(c, 1500 if c.thorough else 100)
            + chk_async.conns(c, 1500 if c.thorough else 100))
    for ops in base:
        kinds = dict((int(o.split()[1]), int(o.split()[2])) for o in ops
                     if o.startswith("open") and int(o.split()[2]) in methods)
        at = 1 + max(i for i, o in enumerate(ops)
                     if o.split()[0] in ("open", "uh", "fibs"))
        end = next((i for i, o in enumerate(ops)
                    if i > at and o.startswith("p")), len(ops))
        body = []
        for o in ops[at:end]:
            if kinds and r.random() < .25:
                i = r.choice(list(kinds))
                body.append(f"fg {i} {r.choice('wi')} {r.randint(0, 4)} "
                            + r.choice(methods[kinds[i]] + ("rel", "so")))
            if kinds and r.random() < .02:
                body.append(f"fcl {r.choice(list(kinds))} {r.randint(0, 4)}")
            body.append(o)
        out.append(ops[:at] + body + ops[end:])
    return out


def fibers(c):
    """Ordinary use: what the library makes for itself is in order."""
    n = 150 if c.thorough else 20
    return [s for cfg, k in (("sim_base", 5), ("sim_disc", 4), ("sim_msg", 5),
                             ("sim_cond", 5), ("sim", 5))
            for s in chk_fibers.from_sim(c, cfg, k, n)]


CHECKS = {"C28": c28}
