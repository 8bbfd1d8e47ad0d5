"""Making, accepting and letting go of psocks (C30)."""
import vlib
from chk_psock import hx

FAULTS = (1, 2, 4, 2 + 8, 4 + 8, 8)


def line(a):
    a = list(a)
    if a[0] == "w":
        a[2] = f"{a[2]:02x}"
    return " ".join(map(str, a))


class Mirror:
    """just enough of the state to make histories that do something."""

    def __init__(self, r, slots):
        self.r, self.n, self.ob, self.ops = r, slots, {}, []
        self.ends = 0

    def free(self):
        f = [s for s in range(self.n) if s not in self.ob]
        return self.r.choice(f) if f else None

    def base(self, s):
        while self.ob[s]["k"] == "br":
            s = self.ob[s]["w"]
        return s

    def tops(self):
        w = {o.get("w") for o in self.ob.values()}
        return [s for s in self.ob if s not in w]

    def pick(self, *kinds):
        p = [s for s in self.tops() if self.ob[self.base(s)]["k"] in kinds]
        return self.r.choice(p) if p else None

    def step(self):
        r, x = self.r, self.r.random()
        s = self.free()
        if x < .10 and s is not None:
            u = r.choice([-1] * 6 + [-2, -3] + [r.randrange(self.n)])
            f = r.choice([0] * 4 + list(FAULTS))
            oom = "!1 " if r.random() < .1 else ""
            self.ops.append(f"{oom}lst {s} {u} {f}")
            if u not in self.ob:
                used = False
            else:
                used = self.ob[u]["k"] == "lis"
            if not oom and f in (0, 8) and u > -2 and not used:
                self.ob[s] = dict(k="lis", q=[], nb=False)
        elif x < .28 and s is not None and self.ends < 60:
            ls = [i for i in self.ob if self.ob[i]["k"] == "lis"]
            if not ls and r.random() < .8:
                return
            h, f = r.choice([0, 0, 0, 1, 2, 3, 4]), r.choice([0] * 9 + [1, 16, 24, 8])
            lst = r.choice(ls) if ls and r.random() < .9 else -1
            if lst >= 0 and len(self.ob[lst]["q"]) > 20:
                return
            oom = "!1 " if r.random() < .08 else ""
            self.ops.append(f"{oom}con {s} {h} {lst} {f}")
            if not oom and f in (0, 8) and h != 3 and lst >= 0:
                a = dict(k="ep", got=[], peer=dict(k="ep", got=[]))
                a["peer"]["peer"] = a
                self.ob[lst]["q"].append(a["peer"])
                self.ob[s] = a
                self.ends += 2
            elif oom and f in (0, 8) and h != 3 and lst >= 0:
                self.ob[lst]["q"].append(dict(k="ep", got=[], peer=dict(
                    k="ep", got=[])))
                self.ends += 2
        elif x < .45 and s is not None:
            t = self.pick("lis") if r.random() < .85 else self.pick(
                "ep", "us", "ud", "sp", "pi", "bi", "bo", "ur")
            if t is None:
                return
            b = self.ob[self.base(t)]
            f = r.choice([0] * 8 + [32, 64])
            if b["k"] == "lis" and not f and not b["q"] and not b["nb"]:
                return
            self.ops.append(f"acc {t} {s} {f} {r.randint(0, 1)}")
            if b["k"] == "lis" and not f and b["q"]:
                self.ob[s] = b["q"].pop(0)
        elif x < .58 and s is not None:
            k = r.choice(["us", "ud", "sp", "pi", "bi", "bo", "ur", "br", "br",
                          "br"])
            oom = f"!{r.randint(1, 3)} " if r.random() < .08 else ""
            if k in ("us", "ud", "sp", "pi"):
                t = r.randrange(self.n)
                if t in self.ob or t == s or self.ends > 60:
                    return
                if oom:
                    oom = "!1 "
                self.ops.append(f"{oom}mk {k} {s} {t}")
                if oom:
                    return
                a = dict(k=k, got=[])
                a["peer"] = dict(k=k, got=[], peer=a)
                self.ob[s], self.ob[t] = a, a["peer"]
                self.ends += 2
            elif k == "br":
                t = r.choice(self.tops()) if self.ob else None
                if t is None:
                    return
                self.ops.append(f"{oom}mk br {s} {t}")
                if not oom or oom == "!3 ":
                    self.ob[s] = dict(k="br", w=t)
            elif k == "ur":
                x1 = r.randint(0, 1)
                self.ops.append(f"mk ur {s} {r.choice([0, 1, 8, 9])} {x1}")
                self.ob[s] = dict(k="ur")
            else:
                v = bytes(r.randrange(256) for _ in range(r.randint(1, 12)))
                self.ops.append(f"mk bi {s} {hx(v)}" if k == "bi"
                                else f"mk bo {s}")
                self.ob[s] = dict(k=k, got=list(v))
        elif x < .68:
            t = self.pick("ep", "us", "bo", "bi")
            if t is None:
                return
            b = self.ob[self.base(t)]
            v = bytes(r.randrange(256) for _ in range(r.randint(1, 9)))
            self.ops.append(f"w {t} {hx(v)}")
            if "peer" in b:
                b["peer"]["got"] += list(v)
        elif x < .80:
            t = self.pick("ep", "us", "bi", "bo")
            if t is None:
                return
            b = self.ob[self.base(t)]
            if b["k"] == "bo":
                self.ops.append(f"r {t} 3")
                return
            n = len(b["got"])
            if b["k"] == "bi" and r.random() < .1:
                self.ops.append(f"r {t} {n + 1}")
            elif n and not b.get("bad"):
                n = r.choice([n, 1, r.randint(1, n)])
                self.ops.append(f"r {t} {n}")
                b["got"][:n] = []
        elif x < .85:
            t = self.pick("ud", "ud", "us", "ep", "bi", "ur", "pi", "sp", "lis")
            if t is None:
                return
            b = self.ob[self.base(t)]
            if r.random() < .5:
                if b["k"] == "ud" and len(b["peer"]["got"]) > 6:
                    return
                self.ops.append(f"sd {t} {r.randrange(8)}")
                if b["k"] == "ud":
                    b["peer"]["got"].append(1)
            elif b["k"] != "ud":
                self.ops.append(f"rd {t}")
            elif b["got"]:
                self.ops.append(f"rd {t}")
                b["got"].pop()
        elif x < .95:
            if not self.ob:
                return
            t = r.choice(list(self.ob))
            self.ops.append(r.choice([
                f"typ {t}", f"out {t}", f"typ {t}",
                f"opt {t} {r.randrange(4)} {r.randint(0, 1)} "
                f"{r.choice([4, 4, 4, 1])}"]))
            if self.ob[t]["k"] == "lis" and r.random() < .3:
                self.ops.append(f"nb {t}")
                self.ob[t]["nb"] = True
        else:
            tops = self.tops()
            if not tops:
                return
            t = r.choice(tops)
            self.ops.append(f"rel {t} {r.choice([0, 0, 0, 1, 2, 3])}")
            o = self.ob.pop(t)
            if o["k"] == "br" and o["w"] in self.ob:
                b = self.ob[self.base(o["w"])]
                b["bad"], b["got"] = True, []
            if "peer" in o:
                o["peer"]["k2"] = "gone"
            for p in o.get("q", []):
                p["peer"]["got"] = []


def histories(c, num, steps):
    out = []
    for _ in range(num):
        m = Mirror(c.rng, 12)
        for _ in range(c.rng.randint(5, steps)):
            m.step()
        out.append(m.ops)
    return out


def each_fault(c):
    """every step of every way of making one, failing; and again in order."""
    out = []
    for u in (-1, -2, -3, 5):
        for f in range(16):
            for oom in ("", "!1 "):
                out.append(["lst 5 -1 0", f"{oom}lst 0 {u} {f}", "lst 1 -1 0",
                            "con 2 0 1 0", "acc 1 3 0 1", "w 2 0102", "r 3 2",
                            "typ 0", "typ 1", "rel 0", "rel 1", "rel 2",
                            "rel 3"])
    for h in range(5):
        for lst in (0, -1):
            for f in (0, 1, 8, 16, 24, 17, 25):
                for oom in ("", "!1 "):
                    out.append(["lst 0 -1 0", f"{oom}con 1 {h} {lst} {f}",
                                f"con 2 {h} 0 0", "con 3 1 0 0", "w 2 61",
                                "w 3 62", "nb 0", "acc 0 4 0 1", "acc 0 5 0 1",
                                "acc 0 6 0 1", "r 4 1", "r 5 1", "typ 2"])
    for k in ("us", "ud", "sp", "pi"):
        for n in (0, 1):
            out.append([f"!{n} mk {k} 0 1" if n else f"mk {k} 0 1", "typ 0",
                        "typ 1", "mk br 2 0", "typ 2", "acc 2 3 0 1",
                        "acc 0 3 0 0", "sd 2 3", "rd 1", "sd 1 4", "sd 1 5",
                        "rd 2", "rd 2", "opt 2 0 1 4", "opt 0 0 1 4",
                        "opt 0 1 3 4", "opt 0 2 1 4", "opt 0 3 1 4",
                        "opt 0 0 0 1", "out 0", "out 2", "rel 2 1", "rel 0 1",
                        "rel 1"])
    for m in (0, 1, 8, 9):
        for x in (0, 1):
            for w in (0, 1, 2):
                top = w
                out.append([f"mk ur 0 {m} {x}"]
                           + [f"mk br {i + 1} {i}" for i in range(w)]
                           + [f"acc {top} 5 0 1", f"acc {top} 5 0 0",
                              f"typ {top}", f"sd {top} 1", f"rd {top}",
                              f"opt {top} 0 1 4", f"out {top}"]
                           + [f"rel {i} {i % 2}" for i in range(w, -1, -1)])
    for k in ("bi", "bo"):
        for w in (0, 1):
            for n in range(4):
                out.append([f"mk {k} 0" + (" 010203" if k == "bi" else "")]
                           + ["mk br 1 0"] * w
                           + [f"acc {w} 5 0 1", f"typ {w}", f"sd {w} 1",
                              f"rd {w}", f"opt {w} 0 1 4", f"w {w} 0909",
                              "!1 out 0", "out 0", "out 1", f"r {w} 2",
                              f"rel {w} {n}", f"rel 0 {n}"])
    # a backlog, accepted by a buffered reader's adapter, twice around.
    for n in (1, 5, 9):
        for w in (0, 1):
            cs = range(2, 2 + min(n, 4))
            one = ([f"con {i} 0 0 0" for i in cs] + [f"w {i} 0{i}" for i in cs]
                   + [y for i in cs for y in (f"acc {w} {i + 5} 0 1",
                                              f"r {i + 5} 1",
                                              f"w {i + 5} 1{i}", f"r {i} 1")]
                   + [f"rel {i + 5}" for i in cs] + [f"rel {i}" for i in cs])
            out.append(["lst 0 -1 0"] + ["mk br 1 0"] * w + one * 2)
    return out


def scripts(c, num=None):
    out = each_fault(c)
    edges = [(f, tuple(a), t) for f, a, t in c.edges("Conn", "Conn_edges.cfg")]
    c.cov["model_transitions_emitted"] = len(edges)
    for p in vlib.cover_edges(edges, edges[0][0], maxlen=40):
        out.append([line(a) for a in p])
    for b in c.simulate("Conn", "Conn_sim.cfg", 2000 if c.thorough else 200, 41):
        out.append([line(a) for a in b])
    out += histories(c, num or (4000 if c.thorough else 400), 60)
    return out


def c30(c):
    c.build("conn")
    c.mc("Conn", "ConnMC2.cfg" if c.thorough else "ConnMC.cfg")
    c.validate("conn", "ConnTrace", c.run("conn", scripts(c)),
               cfg="ConnTrace.cfg", batch=40000)


CHECKS = {"C30": c30}
