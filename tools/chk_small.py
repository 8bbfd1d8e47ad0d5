"""Allocators (C08), triggers (C18), strings (C19), UUIDs (C20), big integers
and stacks (C29)."""
import itertools

import vlib


def hx(b):
    return bytes(b).hex() or "-"


# ------------------------------------------------------------- allocators --
def c08(c):
    c.build("alloc")
    c.mc("Alloc", "AllocMC.cfg")
    r, out = c.rng, []
    edges = [(f, tuple(a), t) for f, a, t in c.edges("Alloc", "Alloc_edges.cfg")]
    c.cov["model_transitions_emitted"] = len(edges)
    for p in vlib.cover_edges(edges, edges[0][0], maxlen=40):
        out.append(["probe"] + [" ".join(map(str, a)) for a in p])
    # every region size and alignment around the header.
    for mis in (0, 8):
        for n in range(0, 140 if c.thorough else 100):
            for a in ((0, 1, 16, 17) if c.thorough else (r.randint(0, 17),)):
                out.append(["probe", f"bn 0 {n} {mis}"] +
                           ([f"a 0 {a}"] * 5 if n >= 64 else []))
    huge = ["max-0", "max-1", "max-15", "max-16", "max-31", "max-32", "max-40",
            "max-64", "max-100", "max-4096", str(2**63), str(2**63 - 1),
            str(2**32), str(2**62)]
    for mis in (0, 8):
        for h in huge:
            for pre in (0, 1, 20):
                out.append(["probe", f"bn 0 200 {mis}", f"a 0 {pre}", f"a 0 {h}",
                            "a 0 8", f"a 0 {h}", "k 0 reset", f"a 0 {h}", "a 0 5"])
    for _ in range(4000 if c.thorough else 500):
        ops = ["probe"]
        live, nb, size = {}, {}, {}
        for _ in range(r.randint(5, 40)):
            i = r.randrange(3)
            if i not in live:
                if r.random() < .6:
                    n = r.choice([64, 100, 200, 1000, 4000]) + r.randint(0, 20)
                    ops.append(f"bn {i} {n} {r.choice([0, 8])}")
                    live[i], nb[i] = "b", []
                else:
                    ops.append(f"mn {i}")
                    live[i], nb[i] = "m", []
                size[i] = 0
                continue
            x = r.random()
            n = r.choice([0, 1, r.randint(0, 70), r.randint(0, 600)])
            if live[i] == "b":
                if x < .75:
                    ops.append(f"a {i} {r.choice(huge) if x < .04 else n}")
                elif x < .82:
                    ops.append(f"k {i} reset")
                elif x < .86:
                    ops.append(f"k {i} {r.randint(0, 3)}")
                elif x < .9:
                    ops.append(f"r {i}")
                    del live[i]
            else:
                pre = f"!1 " if r.random() < .15 else ""
                if x < .45 and size[i] < 300:
                    ops.append(f"{pre}a {i} {n}")
                    if not pre:
                        nb[i].append(size[i])
                        size[i] += 1
                elif x < .7 and nb[i]:
                    ops.append(f"{pre}l {i} {r.choice(nb[i])} {n}")
                elif x < .9 and nb[i]:
                    b = nb[i].pop(r.randrange(len(nb[i])))
                    ops.append(f"f {i} {b}")
                elif x < .93:
                    ops.append(f"k {i} {r.choice(['reset', '0', '1'])}")
        out.append(ops)
    # reclaim and reallocate on a bump allocator; grow and shrink on the heap.
    for n in (64, 100, 200):
        for mis in (0, 8):
            out.append(["probe", f"bn 0 {n} {mis}", "a 0 3", "l 0 0 8", "f 0 0",
                        "a 0 4", "k 0 7", "l 0 0 1", "k 0 reset", "a 0 3",
                        "f 0 0", "r 0"])
    for a, b in itertools.product((0, 1, 2, 15, 16, 17, 100, 4096, 70000), repeat=2):
        out.append(["mn 0", f"a 0 {a}", f"l 0 0 {b}", "a 0 9", f"l 0 0 {a}",
                    f"!1 l 0 0 {b + 1}", f"l 0 1 {b}", "f 0 0", "f 0 1", "r 0"])
    # large regions, many blocks.
    for n in (32767, 32768, 65535, 65536, 65537, 131072, 900001):
        for _ in range(4 if c.thorough else 1):
            big = n // r.choice([3, 40, 200])
            out.append(["probe", f"bn 0 {n} {r.choice([0, 8])}"]
                       + [f"a 0 {r.choice([1, 100, big, r.randint(0, 2 * big)])}"
                          for _ in range(300)]
                       + ["k 0 reset"]
                       + [f"a 0 {r.randint(0, 20)}" for _ in range(100)]
                       + [f"a 0 {n - 200}", "a 0 65536", "a 0 3"])
    for _ in range(3):
        ops = ["mn 0"]
        for k in range(300):
            ops.append(f"a 0 {r.randint(0, 3000)}")
            if r.random() < .5:
                ops.append(f"l 0 {r.randint(0, k)} {r.randint(1, 6000)}")
        ops += [f"f 0 {k}" for k in r.sample(range(300), 300)]
        out.append(ops)
    for i in range(3):
        out.append([f"!{i} mn 0" if i else "mn 0"])
    out.append(["mn 0", "a 0 max-0", f"a 0 {2**63}", "a 0 4", f"l 0 0 {2**63}",
                "f 0 0"])
    c.validate("alloc", "AllocTrace", c.run("alloc", out), cfg="AllocTrace.cfg")


# --------------------------------------------------------------- triggers --
def c18(c):
    c.build("small")
    c.mc("Small", "SmallMC.cfg")
    r, out = c.rng, []
    edges = [(f, tuple(a), t) for f, a, t in c.edges("Small", "Small_edges.cfg")]
    c.cov["model_transitions_emitted"] = len(edges)

    def line(a):
        return " ".join(map(str, a)) + (" 0" if a[0] == "tr" else "")
    for p in vlib.cover_edges(edges, edges[0][0], maxlen=40):
        out.append([line(a) for a in p])
    # every sequence of register, signal and step.
    n = 9 if c.thorough else 7
    k = 0
    for seq in itertools.product("rsp", repeat=n):
        ops = ["tn 0"]
        for x in seq:
            k += 1
            ops.append({"r": f"tr 0 {k % 200} {k % 2}", "s": "ts 0",
                        "p": "tp 0"}[x])
        out.append(ops)
    for _ in range(2000 if c.thorough else 300):
        ops, live = [], set()
        for _ in range(r.randint(10, 60)):
            i = r.randrange(4)
            if r.random() < .1:
                ops.append(f"al {r.randint(0, 1)}")
            if i not in live:
                if r.random() < .1:
                    ops.append(f"!1 tn {i}")
                    continue
                ops.append(f"tn {i}")
                live.add(i)
            elif r.random() < .03:
                ops.append(f"tf {i}")
                live.discard(i)
            else:
                ops.append(r.choice([f"tr {i} {r.randrange(200)} {r.randint(0, 1)}",
                                     f"ts {i}", f"tp {i}", f"tp {i}"]))
        out.append(ops)
    # memory that cannot be handed back is reported.
    out += [["tn 0", "tr 0 5 1", "ts 0", f"ru {k}", "tf 0", "tn 0", "tf 0"]
            for k in (1, 2, 3)]
    c.validate("small", "SmallTrace", c.run("small", out), cfg="SmallTrace.cfg")


# ------------------------------------------------- big integers and stacks --
def c29(c):
    c.build("small")
    r, out = c.rng, []
    c.mc("Small", "SmallMC.cfg")
    for bits in list(range(1, 200)) + [255, 256, 257, 512, 4096, 8191, 8192, 8193]:
        ops = [f"gn 0 {bits}", "gr 0"]
        last = (bits + 63) // 64 - 1
        ops += [f"gp 0 {last} 77 1", f"gp 0 0 5 1", "al 1", "gc 1 0", "gr 1", "gp 1 0 9 0",
                "gr 0", f"gp 0 {last} 12 0", "gr 1", "al 0", "gc 2 1", "gf 1", "gr 2",
                "gr 0", "gf 0", "gr 2"]
        if c.thorough or bits % 8 in (0, 1, 7):
            out.append(ops)
    for k in (1, 2, 3):
        out.append([f"!{k} gn 0 {r.randint(1, 300)}"])
        out.append(["gn 0 100", "al 1", f"!{k} gc 1 0", "gr 0"])
        out.append([f"!{k} kn 0 8192"])
    for n in (1, 15, 16, 4095, 4096, 4097, 16384, 65536, 1 << 20, 1000003):
        out.append([f"kn 0 {n}", f"kn 1 {n + 1}", "kf 0", f"kn 0 {n}", "kf 1", "kf 0"])
    for _ in range(1500 if c.thorough else 250):
        ops, g, k, dig = [], set(), set(), {}
        for _ in range(r.randint(5, 40)):
            i = r.randrange(4)
            x = r.random()
            if r.random() < .2:
                ops.append(f"al {r.randint(0, 1)}")
            if x < .15:
                if i in k:
                    ops.append(f"kf {i}")
                    k.discard(i)
                else:
                    ops.append(f"kn {i} {r.randint(1, 40000)}")
                    k.add(i)
            elif i not in g:
                j = r.choice(sorted(g)) if g and r.random() < .6 else None
                pre = f"!{r.randint(1, 2)} " if r.random() < .1 else ""
                bits = r.choice([1, 64, 65, 128, r.randint(1, 700)])
                ops.append(f"{pre}gn {i} {bits}" if j is None else f"{pre}gc {i} {j}")
                if not pre:
                    g.add(i)
                    dig[i] = (bits + 63) // 64 if j is None else dig[j]
            elif x < .6:
                ops.append(f"gp {i} {r.randrange(dig[i])} "
                           f"{r.randrange(2**31 - 1)} {r.randint(0, 1)}")
            elif x < .9:
                ops.append(f"gr {i}")
            else:
                ops.append(f"gf {i}")
                g.discard(i)
        ops += [f"gr {i}" for i in sorted(g)]
        out.append(ops)
    # memory that cannot be handed back is reported.
    for k in (1, 2, 3):
        out += [["gn 0 100", "gc 1 0", f"ru {k}", "gf 0", "gr 1", f"ru {k}",
                 "gf 1"], ["kn 0 5000", f"ru {k}", "kf 0", "kn 0 9", "kf 0"]]
    c.validate("small", "SmallTrace", c.run("small", out), cfg="SmallTrace.cfg")


# ---------------------------------------------------------------- strings --
def c19(c):
    c.build("text")
    c.mc("Text", "TextMC.cfg")
    r = c.rng
    ops = ["ws"]
    alpha = [9, 32, 97, 98]
    words = [w for n in range(6 if c.thorough else 5)
             for w in itertools.product(alpha, repeat=n)]
    for w in words:
        h = hx(w)
        ops += [f"lt {h}", f"rt {h}", f"tm {h}", f"ch {h}", f"wd {h}",
                f"ms {h} {hx([98])}", f"sd {h}"]
        ops += [f"sp {h} {d}" for d in (97, 32)]
        ops += [f"ew {h} {d}" for d in (97, 9)]
    for a in [w for w in words if len(w) <= 3]:
        for b in [w for w in words if len(w) <= 2]:
            ops.append(f"sw {hx(a)} {hx(b)}")
    ops += ["sw ~ ~", "sw ~ -", "sw ~ 61", "sw 61 ~", "sw - ~", "sd ~"]
    # every single byte, everywhere.
    for b in range(1, 256):
        for w in ([b], [97, b], [b, 97], [97, b, 97], [b, b], [32, b, 32]):
            h = hx(w)
            ops += [f"lt {h}", f"rt {h}", f"tm {h}", f"wd {h}", f"ch {h}",
                    f"sd {h}"]
            if b < 128:
                ops += [f"sp {h} {b}", f"ew {h} {b}", f"ms {h} {hx([b])}",
                        f"ms {h} {hx([44, 32])}"]
            ops.append(f"sw {h} {hx([b])}")
    # longer, random.
    for _ in range(20000 if c.thorough else 2500):
        al = r.choice([[9, 10, 11, 12, 13, 32, 97, 98], [32, 97],
                       [44, 59, 97, 32], list(range(1, 256))])
        w = [r.choice(al) for _ in range(r.choice([3, 8, 20, 60]))]
        h, d = hx(w), r.choice([32, 44, 97, 59])
        k = r.random()
        if k < .3:
            ops.append(f"{r.choice(['lt', 'rt', 'tm', 'ch', 'wd', 'sd'])} {h}")
        elif k < .5:
            ops.append(f"ms {h} {hx(r.sample([9, 32, 44, 59, 97, 98], r.randint(0, 3)))}")
        elif k < .6:
            ops.append(f"sp {h} {d}")
        elif k < .7:
            ops.append(f"ew {h} {d}")
        elif k < .8:
            n = r.randint(0, len(w))
            v = w[:n]
            if v and r.random() < .4:
                v[r.randrange(len(v))] ^= 1
            ops.append(f"sw {h} {hx([x or 1 for x in v])}")
        else:
            q = [hx(r.choice(al) for _ in range(r.choice([0, 0, 1, 5, 30])))
                 for _ in range(r.randint(0, 7) if k < .95
                                else r.randint(8, 24))]
            ops.append(f"{'!1 ' if k < .84 else ''}sc {' '.join(q)}")
            if k < .82:
                ops.append(f"!1 sd {h}")
    # long strings, around the sizes something might overflow at.
    for n in (126, 127, 128, 129, 130, 254, 255, 256, 257, 300, 511, 512, 513,
              1023, 1024, 1025, 2000):
        for al in ([32, 97], [97, 98], [97] * 60 + [44, 9],
                   list(range(1, 256)), [32] * 60 + [97]):
            if not c.thorough and r.random() < .5:
                continue
            w = [r.choice(al) for _ in range(n)]
            h = hx(w)
            ops += [f"{o} {h}" for o in ("lt", "rt", "tm", "ch", "wd", "sd")]
            ops += [f"ms {h} {hx([44, 98])}", f"sp {h} 44", f"sp {h} 98",
                    f"ew {h} {w[-1] % 128}", f"sw {h} {h}",
                    f"sw {h} {hx(w[:-1])}", f"sw {h} {hx(w + [97])}",
                    f"sw {h} {hx(w[:-1] + [w[-1] % 255 + 1])}",
                    f"sc {h} {hx(w[:r.randint(0, n)])} 61 {h}"]
        ops += [f"lt {hx([32] * n)}", f"rt {hx([9] * n)}", f"tm {hx([10] * n)}",
                f"wd {hx([32] * n + [97])}", f"wd {hx([97] * n)}",
                f"tm {hx([32] * n + [97, 32, 97] + [9] * n)}",
                f"sp {hx([97] * n + [44, 98])} 44",
                f"sp {hx([97] * n)} 44", f"ms {hx([44] * n)} 2c"]
    batch(c, ops)


def batch(c, ops):
    r = c.rng
    r.shuffle(ops)
    out = [ops[i:i + 120] for i in range(0, len(ops), 120)]
    c.validate("text", "TextTrace", c.run("text", out), cfg="TextTrace.cfg")


# ------------------------------------------------------------------ UUIDs --
def fmt(b):
    h = bytes(b).hex()
    return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def c20(c):
    c.build("text")
    c.mc("Text", "TextMC.cfg")
    r, ops = c.rng, []

    def rnd():
        return [r.randrange(256) for _ in range(16)]

    def parse(s):
        h = hx(s.encode("latin-1"))
        ops.append(f"up {h}")
        ops.append(f"ur {h} {len(s)}")
    for v in range(256):
        for p in (range(16) if c.thorough else (v % 16, (v * 7 + 3) % 16)):
            u = rnd()
            u[p] = v
            ops.append(f"us {hx(u)}")
            parse(fmt(u))
            parse(fmt(u).upper())
    for _ in range(1500 if c.thorough else 200):
        u = rnd()
        ops.append(f"us {hx(u)}")
        parse("".join(r.choice((x.lower(), x.upper())) for x in fmt(u)))
    # every character at every position.
    for p in range(36):
        for ch in (range(1, 256) if c.thorough else
                   [45, 47, 48, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 1,
                    32, 255, 224, 176, r.randint(1, 255)]):
            s = fmt(rnd())
            parse(s[:p] + chr(ch) + s[p + 1:])
    # every length.
    for n in range(0, 45):
        s = (fmt(rnd()) + "0123456789abcdef-")[:n]
        parse(s)
        if n < 36:
            ops.append(f"ur {hx((fmt(rnd())).encode())} {n}")
    for p in range(36):
        s = fmt(rnd())
        parse(s[:p] + s[p + 1:])
        parse(s[:p] + "0" + s[p:])
        parse(s[:p] + "-" + s[p:])
        # the right length, but one character gone, doubled or moved.
        for ch in "0-f ":
            parse(s[:p] + s[p + 1:] + ch)
            parse(s[:p] + ch + s[p:-1])
            parse(ch + s[:p] + s[p + 1:])
        if p:
            parse(s[:p - 1] + s[p] + s[p - 1] + s[p + 1:])
        # a terminator inside the raw form.
        ops.append(f"ur {hx((s[:p] + chr(0) + s[p + 1:]).encode())} 36")
    parse("{" + fmt(rnd()) + "}")
    parse(fmt(rnd()).replace("-", ""))
    ops += ["up ~", "ur ~ 36", "ur ~ 0", f"!1 us {hx(rnd())}", f"!2 us {hx(rnd())}"]
    batch(c, ops)


CHECKS = {"C08": c08, "C18": c18, "C19": c19, "C20": c20, "C29": c29}
