"""Asynchronous psocks on a fiber scheduler (C15), connections and
descriptors (C24)."""
from chk_psock import WIDTH, TAG, be4, enc, hx, rvalue

STREAM, BR, LISTEN, DGRAM, SDGRAM, SSTREAM = range(6)


def script(opens, handlers, nfib, body, env):
    return ([f"open {i} {k} {f}" for i, (k, f) in enumerate(opens)]
            + [f"uh {f} {h}" for f, h in handlers]
            + ([f"fibs {nfib}"] if nfib else []) + body + env)


def from_sim(c, num):
    out, seen = [], set()
    got = sorted(c.simulate("Async", "Async_sim.cfg", num, 90), key=str)
    got = [b for b, n in zip(got, got[1:] + [[]]) if n[:len(b)] != b]
    for b in got:
        body, env = [], []
        for x in b:
            if x[0] == "c":
                o = x[1]
                body.append({
                    "r": "r {i} 0 10 {n}", "rr": "rr {i} {n}",
                    "w": "w {i} 0 10 0102", "rblk": "rblk {i}",
                    "wblk": "wblk {i}", "y": "y", "x": "x",
                    "q": "q {i}"}[o["k"]].format(**o))
            else:
                env.append(f"{x[1]} {x[2]}"
                           + (f" {x[3]:02x}" if x[1] == "pf" else ""))
                if x[0] == "e":
                    body.append("env")
        t = (tuple(body), tuple(env))
        if t not in seen:
            seen.add(t)
            out.append(script([(0, 0), (1, 1)],
                              [(f, c.rng.randrange(4)) for f in (0, 1)],
                              3, body, env))
    return out


def cuts(r, v):
    """v cut into feeds."""
    out = []
    while v:
        n = r.choice([1, 2, 3, len(v)])
        out.append(v[:n])
        v = v[n:]
    return out


def every_cut(c):
    """a value arrives in pieces while the fiber waits, or partly before."""
    r, out = c.rng, []
    for k in (STREAM, BR):
        for t in range(11):
            for b in (0, 1):
                if t == 9 and not b:
                    continue
                v = rvalue(r, t) if t < 9 else b"wxyz"
                e = enc(b, t, v)
                rd = f"r 0 {b} {t} {len(v) if t == 10 else 0}"
                for cut in range(len(e) + 1):
                    pre = [f"pf 0 {hx(e[:cut])}"] if cut else []
                    post = [f"pf 0 {hx(x)}" for x in cuts(r, e[cut:])]
                    for end in ([], ["pc 0"]):
                        if end and cut % 3:
                            continue
                        body = ["env"] * len(pre) + [rd, f"r 0 0 7"]
                        env = (pre + (post if not end else post[:-1]) + end
                               + ["pf 0 21"])
                        out.append(script([(k, 0)], [], 1, body + ["y"] * 2,
                                          env))
    return out


def writes(c):
    """every pattern of short writes and would-block answers."""
    r, out = c.rng, []
    pats = [[]]
    for n in range(1, 5 if c.thorough else 4):
        pats += [p + [k] for p in pats if len(p) == n - 1 for k in (0, 1, 3)]
    for p in pats:
        for k in (STREAM, BR):
            b, t = r.choice([(0, 10), (1, 10), (1, 9), (1, 1)])
            v = rvalue(r, t) if t < 9 else b"abcd"
            out.append(script([(k, 0)], [], 1, [
                "wc 0 " + " ".join(map(str, p)), f"w 0 {b} {t} {hx(v)}",
                "w 0 0 5 0102"], ["pd 0", "pd 0"]))
    # a full socket: the writer waits until the peer reads.
    for k in (STREAM, BR):
        for n in (1, 700, 5000, 20000):
            v = bytes(i % 251 for i in range(n))
            out.append(script([(k, 0)], [], 2, [
                "env", f"w 0 1 10 {hx(v)[:3900]}", "w 0 0 7 01", "y", "y"],
                ["pfill 0"] + ["pd 0"] * 6))
            out.append(script([(k, 0)], [], 2, [
                "env", f"w 0 1 10 {hx(v)[:3900]}", "w 0 0 7 01", "y", "y"],
                ["pfill 0", "pc 0"]))
    return out


def blocks(c):
    """waiting, being woken, being turned away, being interrupted."""
    r, out = c.rng, []
    for k in (STREAM, BR, DGRAM, LISTEN):
        for h in range(4):
            for d in ("rblk 0", "wblk 0", "r 0 0 5", "r 0 1 10", "rl 0 9",
                      "w 0 0 3 01020304", "ac 0", "rd 0", "sd 0 3"):
                w = d.split()[0] in ("w", "sd", "wblk")
                for own in (0, 1, 2):
                    pre = ["wc 0 0 0"] if w else []
                    out.append(script([(k, own)], [(own, h)], 2,
                                      ["y"] + pre + [d, "q 1", "y", "q 1",
                                                     "y", "q 2", "y"],
                                      ["pf 0 0102", "pk 0", "ps 0 2",
                                       "pd 0", "pg 0", "pf 0 0304"]))
    # both directions of one socket at once, several sockets in one poll.
    for a in ("r 0 0 5", "rblk 0"):
        for b in ("w 0 0 5 0102", "wblk 0"):
            for ks in ((0, 1), (1, 0)):
                for env in (["pf 0 0102", "pd 0"], ["pd 0", "pf 0 0102"],
                            ["pf 0 01", "pf 1 01", "pf 0 02", "pd 0"],
                            ["pc 0"], ["pc 1", "pc 0"]):
                    out.append(script(
                        [(k, 0) for k in ks], [], 4,
                        ["env", "y", a, b, "r 1 0 7", "w 1 0 7 05", a, b,
                         "y", "y", "y"],
                        ["pfill 0"] + env + ["pf 1 09"]))
    # two fibers on one direction: the second is turned away, the first
    # still gets everything.
    for a in ("r 0 0 5", "rblk 0", "r 0 1 10"):
        for b in ("r 0 0 7", "rblk 0", "r 0 1 9"):
            out.append(script([(STREAM, 0)], [], 3,
                              ["y", a, b, b, "y", "y", "y"],
                              ["pf 0 01", "pf 0 0203", "pf 0 04"]))
    for a in ("w 0 0 5 0102", "wblk 0"):
        for b in ("w 0 0 7 09", "wblk 0"):
            out.append(script([(STREAM, 0)], [], 3,
                              ["env", "y", a, b, b, "y", "y", "y"],
                              ["pfill 0", "pd 0", "pd 0"]))
    return out


def conns(c, heavy):
    """listeners and descriptor passing."""
    r, out = c.rng, []
    for _ in range(heavy):
        ks = [r.choice([LISTEN, DGRAM, SDGRAM, LISTEN, DGRAM, STREAM, SSTREAM])
              for _ in range(r.randint(1, 3))]
        body, env = [], []
        for _ in range(r.randint(3, 25)):
            i = r.randrange(len(ks))
            x = r.random()
            if ks[i] == LISTEN:
                e, o = f"pk {i}", f"ac {i}"
            elif x < .4:
                e, o = f"pg {i}", f"sd {i} {r.randrange(7)}"
            else:
                e, o = f"ps {i} {r.choice([0, 1, 2, 3, 4, 5, 6, 7])}", f"rd {i}"
            if r.random() < .15 and ks[i] == DGRAM:
                body.append(f"wc {i} " + " ".join(
                    r.choice("011") for _ in range(3)))
            env.append(e)
            if r.random() < .6:
                body.append("env")
            body.append(o)
            if r.random() < .2:
                body.append("y")
            if r.random() < .07:
                body.append(r.choice([f"sd {i} 1", f"rd {i}", f"ac {i}",
                                      f"rblk {i} !", f"wblk {i} !"]))
            if r.random() < .05:
                body.append(f"q {r.randrange(4)}")
        env += [f"{'pg' if k in (3, 4) else 'pk'} {i}"
                for i, k in enumerate(ks) for _ in range(3)]
        n = r.randint(0, 4)
        out.append(script([(k, r.randint(0, 0)) for k in ks],
                          [(0, r.randrange(4))], n, body + ["y"] * 3, env))
    return out


def random_streams(c, num):
    r, out = c.rng, []
    for _ in range(num):
        ns = r.randint(1, 4)
        nf = r.randint(1, 5)
        ks = [r.choice([STREAM, BR]) for _ in range(ns)]
        body, env = [], []
        want = {i: [] for i in range(ns)}
        for _ in range(r.randint(5, 40)):
            i, x = r.randrange(ns), r.random()
            if x < .3:
                b, t = r.randint(0, 1), r.randrange(11)
                b = 1 if t == 9 else b
                v = rvalue(r, t)
                env += [f"pf {i} {hx(e)}" for e in cuts(r, enc(b, t, v))]
                body.append(f"r {i} {b} {t} {len(v)}")
            elif x < .36:
                line = bytes(r.choice([97, 98, 10]) for _ in range(r.randint(1, 9)))
                env += [f"pf {i} {hx(e)}" for e in cuts(r, line)]
                body += [f"rl {i} {r.choice([2, 3, 5, 20])}"
                         for _ in range(line.count(10) or 1)]
            elif x < .42:
                body.append(f"rr {i} {r.randint(1, 9)}")
            elif x < .6:
                b, t = r.randint(0, 1), r.randrange(11)
                b = 1 if t == 9 else b
                if r.random() < .5:
                    body.append(f"wc {i} " + " ".join(
                        str(r.choice([0, 1, 2, 5, -1]))
                        for _ in range(r.randint(1, 5))))
                body.append(f"w {i} {b} {t} {hx(rvalue(r, t))}")
            elif x < .66:
                body.append(r.choice([f"rblk {i}", f"wblk {i}"]))
            elif x < .72:
                body.append(f"q {r.randrange(nf + 1)}")
            elif x < .85:
                body.append("y")
            elif x < .87:
                body.append("x")
            else:
                body.append("env")
            if r.random() < .12:
                env.append(r.choice([f"pd {i}", f"pd {i}", f"pfill {i}"]))
            if r.random() < .015:
                env.append(f"pc {i}")
        if r.random() < .3:
            r.shuffle(env)
        env += [f"pd {i}" for i in range(ns)] + [f"pc {i}" for i in range(ns)
                                                 if r.random() < .5]
        out.append(script([(k, r.randint(0, 0)) for k in ks],
                          [(0, r.randrange(4))], nf, body + ["y"] * 6, env))
    return out


def faults(c):
    """the system refuses: no epoll, no non-blocking mode, nothing to watch,
    interrupted waits; and sockets opened and let go on the way."""
    r, out = c.rng, []
    for k in (STREAM, BR, LISTEN, DGRAM):
        for x in range(1, 5):
            for n in (1, 2):
                out.append([f"open 0 {k} 0 {x}"] * n
                           + [f"open 0 {k} 0", "fibs 1", "open 1 0 0",
                              f"open 2 {k} 0 {x}", f"open 2 {k} 0", "r 0 0 7",
                              "ac 0", "rd 0", "r 1 0 7", "r 2 0 7", "ac 2",
                              "rd 2", "y", "y", "pf 0 01", "pf 1 02",
                              "pk 0", "ps 0 2", "pf 2 03", "pk 2", "ps 2 3"])
    ways = {STREAM: ("r 0 0 5", "rblk 0", "w 0 0 5 0102", "wblk 0", "r 0 1 10"),
            BR: ("r 0 0 5", "rl 0 9", "w 0 0 5 0102"),
            LISTEN: ("ac 0",), DGRAM: ("sd 0 3", "rd 0")}
    for k, ds in ways.items():
        for d in ds:
            w = ["wc 0 0 0"] if d.split()[0] in ("w", "sd", "wblk") else []
            for h in (0, 1):
                for other in ds + ("y",):
                    for n in (1, 2):
                        for at in (0, 1):
                            out.append(script(
                                [(k, 0), (STREAM, 0)], [(0, h)], 3,
                                ["y"] + w + (["ce 0"] if not at else [])
                                + [other] + (["ce 0"] if at else []) + [d]
                                + ["q 2", "q 1", "y", d, "y", "y"],
                                ["pi"] * n + ["pf 0 0102", "pk 0", "ps 0 2",
                                              "pi", "pd 0", "pg 0", "pi",
                                              "pf 0 0304", "pd 0"]))
    for _ in range(400 if c.thorough else 60):
        ks = [r.choice([STREAM, BR, LISTEN, DGRAM]) for _ in range(3)]
        body, env = [], []
        for _ in range(r.randint(8, 40)):
            i, x = r.randrange(3), r.random()
            if x < .15:
                body += [f"cl {i}", f"open {i} {r.choice([0, 1, 2, 3])} 0"]
            elif x < .25:
                body.append(f"ce {i}")
            elif x < .6:
                body.append(r.choice([f"r {i} 0 7", f"r {i} 0 5", f"rl {i} 4",
                                      f"ac {i}", f"rd {i}", f"rblk {i}"]))
            elif x < .75:
                body += [f"wc {i} 0 1 0 -1",
                         r.choice([f"w {i} 0 5 0102", f"sd {i} 2",
                                   f"wblk {i}"])]
            elif x < .9:
                body.append("y")
            else:
                body.append("env")
            env.append(r.choice([f"pf {i} 0a", f"pf {i} 0102", f"pk {i}",
                                 f"ps {i} 3", f"pd {i}", f"pg {i}", "pi",
                                 "pi"]))
        out.append(script([(k, 0) for k in ks], [(0, r.randrange(4))], 4,
                          body + ["y"] * 4, env * 2))
    return out


def crowds(c):
    """many fibers and sockets: many waiting, many ready at once, in every
    proportion; a deep backlog; many descriptors in flight."""
    r, out = c.rng, []
    for nf, ns in ((8, 6), (13, 12), (20, 19), (24, 20), (9, 20)):
        for _ in range(6 if c.thorough else 2):
            ks = [r.choice([STREAM, BR, LISTEN, DGRAM]) for _ in range(ns)]
            feed = {STREAM: "pf {} 0102", BR: "pf {} 0102", LISTEN: "pk {}",
                    DGRAM: "ps {} 3"}
            take = {STREAM: "r {} 0 5", BR: "r {} 0 5", LISTEN: "ac {}",
                    DGRAM: "rd {}"}
            # each round every fiber takes something and waits; the last one
            # lets everything arrive, then waits too.
            body, env = ["y"], []
            for n in (ns, ns, ns // 2, ns, 1, ns):
                order = [i % ns for i in range(nf)]
                r.shuffle(order)
                seen = set()
                for i in order:
                    body.append("y" if i in seen and nf > ns and r.random() < .5
                                else f"wblk {i}" if i in seen
                                else take[ks[i]].format(i))
                    seen.add(i)
                ready = r.sample(range(ns), n)
                if n < ns:      # the rest later, one at a time.
                    late = [i for i in range(ns) if i not in ready]
                else:
                    late = []
                # (and all come back before the next round.)
                body += (["env"] * (n + 1) + [f"r {ns} 0 7"]
                         + ["y"] * (nf + 1))
                env += [feed[ks[i]].format(i) for i in ready] + [f"pf {ns} 09"]
                env += [feed[ks[i]].format(i) for i in late]
            out.append(script([(k, 0) for k in ks] + [(STREAM, 0)],
                              [(0, r.randrange(2))], nf, body, env))
    for k, feed, take in ((LISTEN, "pk 0", "ac 0"), (DGRAM, "ps 0 {}", "rd 0")):
        for n in ((30, 120) if k == LISTEN else (9, 10)):
            for nf in (1, 3):
                fs = [feed.format(1 + j % 7) for j in range(n)]
                out.append(script([(k, 0)], [], nf, ["env"] * (n - 2)
                                  + [take] * (n + 1) + ["y"] * 2,
                                  fs + fs[:3]))
    out.append(script([(DGRAM, 0)], [], 2, [f"sd 0 {j % 7}" for j in range(40)]
                      + ["y"], ["pg 0"] * 45))
    return out


def oom(k):
    return [[f"!{i} open 0 {k} 0", f"open 1 {k} 0", "fibs 2",
             "r 1 0 5", "ac 1", "rd 1", "y", "y", "pf 1 0102", "pk 1",
             "ps 1 3", "pf 0 01", "pk 0"] for i in range(1, 40)]


def judge(c, out):
    c.validate("async", "AsyncTrace", c.run("async", out),
               cfg="AsyncTrace.cfg", batch=40000)
    c.validate("async", "AsyncTrace", c.run("async", crowds(c)),
               cfg="AsyncTraceBig.cfg", batch=40000)


def c15(c):
    c.build("async")
    c.mc("Async", "AsyncMC.cfg")
    out = every_cut(c) + writes(c) + blocks(c)
    out += from_sim(c, 3000 if c.thorough else 300)
    out += random_streams(c, 6000 if c.thorough else 500)
    out += faults(c)
    for k in (STREAM, BR):
        out += oom(k)
    judge(c, out)


def c24(c):
    c.build("async")
    c.mc("Async", "AsyncMC.cfg")
    out = conns(c, 6000 if c.thorough else 700)
    out += faults(c)
    for k in (LISTEN, DGRAM):
        out += oom(k)
    judge(c, out)


CHECKS = {"C15": c15, "C24": c24}
