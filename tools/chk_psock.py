"""Synchronous psocks: values (C14), buffered reader (C16), buffers and user
methods (C17)."""
import json
import vlib

WIDTH = [8, 8, 4, 4, 2, 2, 1, 1, 1]
TAG = list(range(16, 25)) + [32, 34]


def be4(n):
    return n.to_bytes(4, "big")


def enc(b, t, v):
    return ((be4(TAG[t]) if b else b"")
            + (be4(len(v)) if b and t >= 9 else b"") + v)


def hx(v):
    return v.hex() if v else "-"


def boundary(t):
    w = WIDTH[t]
    top = 1 << (8 * w)
    return [x % top for x in (0, 1, top - 1, top // 2, top // 2 - 1,
                              0x0102030405060708, 0xFEDCBA9876543210)]


def rvalue(r, t, maxlen=12):
    if t == 8:
        return bytes([r.randint(0, 1)])
    if t < 8:
        w = WIDTH[t]
        if r.random() < .3:
            return r.choice(boundary(t)).to_bytes(w, "big")
        return bytes(r.randrange(256) for _ in range(w))
    n = r.choice([0, 1, 2, 3, r.randint(0, maxlen)])
    lo = 1 if t == 9 else 0
    return bytes(r.randint(lo, 255) for _ in range(n))


def kinds(r):
    return r.choice([0, 1, 4, 5, 6, 7])


def read_of(b, t, v):
    return f"r {b} {t} {len(v) if t == 10 and not b else 0}"


def c14_scripts(c):
    r, out = c.rng, []
    # every segmentation of a boxed 64 bit value, descriptor and reader.
    for mask in range(1 << 11):
        cuts, last = [], 0
        for i in range(11):
            if mask >> i & 1:
                cuts.append(i + 1 - last)
                last = i + 1
        cuts.append(12 - last)
        k = (0, 1, 5)[mask % 3] if not c.thorough else None
        for kind in ([k] if k is not None else (0, 1, 5)):
            out.append([f"open {kind}", "seg " + " ".join(map(str, cuts)),
                        "w 1 1 fedcba9876543210", "w 1 5 beef",
                        "r 1 1", "r 1 5"])
    # every segmentation of short strings and data.
    for n in range(0, 4):
        for mask in range(1 << (7 + n) if c.thorough else 0):
            cuts, last = [], 0
            for i in range(7 + n):
                if mask >> i & 1:
                    cuts.append(i + 1 - last)
                    last = i + 1
            cuts.append(8 + n - last)
            out.append([f"open {mask % 2}", "seg " + " ".join(map(str, cuts)),
                        f"w 1 {9 + mask % 2} " + hx(b"abcd"[:n]), "w 0 7 5a",
                        f"r 1 {9 + mask % 2}", "r 0 7"])
    # every type at its boundaries, every kind, three segment sizes.
    for kind in (0, 1, 2, 4, 5, 6):
        for b in (0, 1):
            for seg in (0, 1, 3):
                ops = [f"open {kind}", f"seg {seg}"]
                vals = [(t, x.to_bytes(WIDTH[t], "big"))
                        for t in range(9) for x in
                        (boundary(t) if t < 8 else (0, 1))]
                vals += [(10, bytes([0, 255, 10, 13])), (10, b"")]
                if b:
                    vals += [(9, b"hello"), (9, b""), (9, bytes([255, 128]))]
                r.shuffle(vals)
                for t, v in vals:
                    ops.append(f"w {b} {t} {hx(v)}")
                if kind == 2:
                    ops += ["flip 1" if seg else "flip"]
                for t, v in vals:
                    ops.append(read_of(b, t, v))
                out.append(ops)
    # the stream ends, or stalls, at every point inside every value.
    for t in range(11):
        for b in (0, 1):
            if t == 9 and not b:
                continue
            v = rvalue(r, t) if t < 9 else b"xyz"
            e = enc(b, t, v)
            for cut in range(len(e)):
                for end in (["c"], []):
                    k = r.choice([0, 1, 5, 4])
                    out.append([f"open {k}", f"seg {r.randint(0, 3)}"]
                               + ["f " + hx(e[:cut])] * (cut > 0) + end
                               + [read_of(b, t, v)])
                out.append(["open 3 " + hx(e[:cut]), f"seg {r.randint(0, 3)}",
                            read_of(b, t, v)])
    # every type read as every other type; every single-bit error in a tag.
    for t in range(11):
        for u in range(11):
            v = rvalue(r, u)
            out.append([f"open {kinds(r)}", f"w 1 {u} {hx(v)}", f"r 1 {t}"])
        for bit in range(32):
            e = bytearray(enc(1, t, rvalue(r, t)))
            e[bit // 8] ^= 1 << (bit % 8)
            out.append([f"open {kinds(r)}", "f " + hx(bytes(e)), f"r 1 {t}"])
    # bytes other than 0 and 1 read as booleans.
    for x in (1, 2, 127, 128, 255, 0):
        out.append(["open 1", f"f {x:02x}", f"r 0 8 {x % 2}",
                    "f " + hx(be4(24) + bytes([x])), f"r 1 8 {1 - x % 2}"])
    # hostile lengths.
    for t in (9, 10):
        for n in (0xffffffff, 1, 255, 65536):
            if t == 10 and n == 0xffffffff:
                continue
            for k in (0, 1, 4):
                out.append([f"open {k}", "f " + hx(be4(TAG[t]) + be4(n)), "c",
                            f"r 1 {t}"])
    # random conversations.
    for _ in range(3000 if c.thorough else 700):
        k, q = kinds(r), []
        ops = [f"open {k}", "seg " + " ".join(
            str(r.choice([0, 1, 2, 3, 5, 9])) for _ in range(r.randint(1, 9)))]
        for _ in range(r.randint(2, 24)):
            if q and r.random() < .5:
                b, t, v = q.pop(0)
                if r.random() < .02:
                    t = r.randrange(11)
                    if t == 9:
                        b = 1
                ops.append(read_of(b, t, v))
            else:
                b, t = r.randint(0, 1), r.randrange(11)
                b = 1 if t == 9 else b
                v = rvalue(r, t, 300 if r.random() < .05 else 12)
                if r.random() < .1 and k in (0, 1, 5):
                    ops.append(f"x {b} {t} {hx(v)}")
                else:
                    ops.append(f"w {b} {t} {hx(v)}")
                    q.append((b, t, v))
        if r.random() < .5:
            ops.append("c")
            q.append((0, 7, b"x"))
        ops += [read_of(b, t, v) for b, t, v in q]
        out.append(ops)
    # raw data from a method that hands out pieces.
    for _ in range(400 if c.thorough else 120):
        n = r.randint(1, 40)
        out.append([f"open {r.choice([4, 6])}", "seg " + " ".join(
            str(r.randint(1, 7)) for _ in range(r.randint(1, 6))),
            "f " + hx(bytes(r.randrange(256) for _ in range(n + 3)))]
            + (["c"] if r.random() < .3 else [])
            + [f"r 0 10 {n}", f"r 0 10 {r.choice([1, 2, 3, 4])}", "r 0 7"])
    # short writes are reported.
    for t in range(11):
        for cut in (1, 2, 3, 5, 7):
            b = 1 if t == 9 else r.randint(0, 1)
            k = r.choice([0, 4])
            v = rvalue(r, t) if t < 9 else b"abcdef"
            out.append([f"open {k}", f"wseg {cut}", f"w {b} {t} {hx(v)}"])
    # the n-th write fails, would block, or takes nothing; the n-th read fails
    # or would block: every type, raw and boxed, every call it makes.
    for t in range(11):
        for b in ((1,) if t == 9 else (0, 1)):
            v = rvalue(r, t) if t < 9 else b"abcdef"
            for n in range(1, 4 if b and t >= 9 else 3 if b else 2):
                for e in (0, 1, 2):
                    # from the reader's end too; then writing goes on.
                    k, op = r.choice([(0, "w"), (4, "w"), (6, "w"), (1, "x"),
                                      (0, "x"), (5, "x")])
                    ops = [f"open {k}"] + (
                        [f"wseg {r.randint(1, 3)}"]
                        if t == 10 and r.random() < .3 else [])
                    out.append(ops + [f"werr {n} {e}", f"{op} {b} {t} {hx(v)}",
                                      f"{op} 0 5 0102"])
                for e in (0, 1):
                    for k in ((0, 1, 4, 5, 7) if c.thorough
                              else (4, r.choice([0, 1, 5, 7]))):
                        seg = r.choice([0, 1, 2, 3])
                        m = n if not seg else r.randint(1, len(enc(b, t, v)))
                        out.append([f"open {k}", f"seg {seg}",
                                    f"w {b} {t} {hx(v)}", "w 0 5 0102",
                                    f"rerr {m} {e}", read_of(b, t, v),
                                    "r 0 5"])
    # large payloads, through the reader's 16384 byte buffer.
    big = [4095, 4096, 4097, 16375, 16376, 16377, 16384, 20000, 32767, 32768,
           65535, 65536, 65537, 70000]
    for n in big if c.thorough else [*r.sample(big[:9], 2), r.choice(big[9:])]:
        k, t = r.choice([1, 5, 0, 4]), r.choice([9, 10])
        out.append([f"open {k}", f"seg {r.choice([0, 1000, 4096])}",
                    f"w 1 {t} @{n}:{r.randrange(255)}", "w 1 3 00000007",
                    f"r 1 {t}", "r 1 3"])
    out.append(["open 4", "wbig"])
    return out


def c14(c):
    c.build("psock")
    c.mc("Stream", "StreamMC.cfg")
    c.validate("psock", "StreamTrace", c.run("psock", c14_scripts(c)),
               cfg="StreamTrace.cfg", batch=60000)


def label(a):
    if a[0] == "f":
        return ["f " + bytes(a[1]).hex()]
    if a[0] == "c":
        return ["c"]
    return [f"seg {a[-1]}", " ".join(map(str, a[:-1]))]


def c16(c):
    c.build("psock")
    r = c.rng
    edges = [(f, json.dumps(a), t) for f, a, t in
             c.edges("Stream", "Stream.cfg")]
    c.cov["model_transitions_emitted"] = len(edges)
    paths = vlib.cover_edges(edges, edges[0][0], maxlen=40)
    out = []
    for i, p in enumerate(paths):
        body = [o for a in p for o in label(json.loads(a))]
        for k in ((1, 5) if c.thorough else ((5,) if i % 4 == 3 else (1,))):
            out.append([f"open {k}"] + body)
    # random streams of lines, values and raw reads; all reader kinds.
    for _ in range(3000 if c.thorough else 600):
        k = r.choice([1, 1, 5, 3])
        alpha = r.choice([[10, 97], [10, 97, 98, 0, 13, 255]])
        n = r.randint(0, 60)
        data = bytes(r.choice(alpha) for _ in range(n))
        ops = [f"open 3 {hx(data)}" if k == 3 else f"open {k}",
               "seg " + " ".join(str(r.randint(0, 7))
                                 for _ in range(r.randint(1, 9)))]
        if k == 3:
            data = b""
        sent = 0
        done = k == 3
        for _ in range(r.randint(3, 40)):
            x = r.random()
            if not done and sent < len(data) and x < .3:
                m = r.randint(1, 9)
                ops.append("f " + hx(data[sent:sent + m]))
                sent = min(len(data), sent + m)
            elif not done and sent == len(data) and x < .3:
                ops.append("c")
                done = True
            elif x < .75:
                ops.append(f"rl {r.choice([0, 1, 2, 3, 5, 8, 13, 30])}")
            elif x < .85:
                ops.append(f"rr {r.randint(0, 9)}")
            elif x < .95:
                ops.append(r.choice(["r 0 7", "r 0 5", f"r 0 10 {r.randint(0, 5)}"]))
            elif k in (1, 5) and not done:
                ops.append("x 1 3 01020304")
        if not done:
            if sent < len(data):
                ops.append("f " + hx(data[sent:]))
            ops.append("c")
        ops += [f"rl {r.choice([2, 5, 9, 40])}"] * 12
        out.append(ops)
    # the transport fails, or would block, somewhere in the middle.
    for _ in range(1500 if c.thorough else 300):
        data = bytes(r.choice([10, 97, 98]) for _ in range(r.randint(1, 30)))
        ops = [f"open {r.choice([1, 1, 5, 7])}",
               "seg " + " ".join(str(r.randint(0, 5))
                                 for _ in range(r.randint(1, 9))),
               "f " + hx(data)] + ["c"] * r.randint(0, 1)
        for _ in range(r.randint(2, 12)):
            if r.random() < .4:
                ops.append(f"rerr {r.randint(1, 3)} {r.choice([0, 1, 1, 1])}")
            ops.append(r.choice([f"rl {r.choice([2, 3, 5, 8, 40])}"] * 3
                                + [f"rr {r.randint(1, 9)}", "r 0 5"]))
        out.append(ops)
    # lines longer than the reader's buffer; the buffer's edges.
    for n in (16382, 16383, 16384, 16385, 20000):
        if not c.thorough and n in (16382, 16385):
            continue
        body = bytes(97 + i % 26 for i in range(n))
        k = r.choice([1, 5])
        out.append([f"open {k}", "seg " + r.choice(["0", "5000", "16000 1"]),
                    "f " + hx(body + b"\ntail\n"),
                    f"rl {r.choice([n, n + 1, n + 2, 17000])}", "rl 9", "rl 9"])
    # long streams: several times the reader's buffer passes through it, with
    # something left over in it whenever it is filled again.
    for _ in range(16 if c.thorough else 4):
        k = r.choice([1, 1, 5])
        ops = [f"open {k}", "seg " + " ".join(
            str(r.choice([0, 0, 700, 4096, 16384, 16383]))
            for _ in range(r.randint(1, 5)))]
        total, taken = 0, 0
        while taken < 50000:
            if total - taken < 9000:
                n = r.choice([3000, 9000, 17000, 20000, 33000])
                ops.append(f"f @{n}:{r.randrange(255)}")
                total += n
            x = r.random()
            if x < .3:          # at most one line of 256
                n = r.choice([2, 100, 256, 257, 300])
                ops.append(f"rl {n}")
                taken += min(n, 256) // 2
            elif x < .9:
                n = r.choice([1, 50, 255, 3000, 5000])
                ops.append(f"r 0 10 {n}")
                taken += n
            else:
                n = r.choice([1, 1000, 16384, 20000])
                ops.append(f"rr {n}")
                taken += n      # perhaps fewer
        ops += ["c"] + ["rr 40000"] * 3 + ["rl 300"] * 3
        out.append(ops)
    # memory runs out while creating one.
    for k in (1, 5, 3):
        for i in range(1, 9):
            out.append([f"!{i} open {k} 6162"])
    c.validate("psock", "StreamTrace", c.run("psock", out),
               cfg="StreamTrace.cfg", batch=60000)


def c17(c):
    c.build("psock")
    c.mc("Stream", "StreamMC.cfg")
    r, out = c.rng, []
    sizes = [0, 1, 2, 7, 8, 100]
    edge = [4087, 4088, 4089, 4094, 4095, 4096, 4097, 8191, 8192, 8193]
    # one write after another around the 4096 byte blocks, with and without
    # memory running out at every allocation.
    for a in edge:
        for b in ([1, 4095, 4096, 4097] if c.thorough else [r.choice([1, 4096, 4097])]):
            for i in ([0, 1, 2, 3, 4, 5, 6, 7] if c.thorough
                      else [0, r.randint(1, 3), r.randint(4, 6)]):
                ops = ["open 2", f"w 0 10 @{a}:3"]
                ops += [f"!{i} w 0 10 @{b}:9" if i else f"w 0 10 @{b}:9",
                        "w 1 3 01020304", "flip"]
                out.append(ops)
    # a write of any size on top of any fill of the current block.
    for a in (0, 1, 7, 2048, 4088, 4095, 4096, 4097, 6000):
        for b in (5, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 12288, 16384,
                  16385, 20000, 33000, 70000):
            if c.thorough or r.random() < .5:
                out.append(["open 2"] + ([f"w 0 10 @{a}:3"] if a else [])
                           + [f"w {r.randint(0, 1)} 10 @{b}:9",
                              f"w 0 10 @{r.choice([1, 100, 4096])}:5",
                              f"flip {r.randint(0, 1)}"])
    for _ in range(1500 if c.thorough else 250):
        ops, vals, oom = ["open 2"], [], False
        total = 0
        for _ in range(r.randint(1, 14)):
            b, t = r.randint(0, 1), r.randrange(11)
            b = 1 if t == 9 else b
            if t >= 9 and r.random() < .2 and total < 9000:
                n = r.choice(edge[:6] + [r.randint(1000, 4200)])
                v = None
                val = f"@{n}:{r.randrange(255)}"
            else:
                v = rvalue(r, t, 40)
                n = len(v)
                val = hx(v)
            total += n
            pre = ""
            if r.random() < .1:
                pre, oom = f"!{r.randint(1, 4)} ", True
            ops.append(f"{pre}w {b} {t} {val}")
            vals.append((b, t, n))
        if r.random() < .1:
            ops.append("!1 flip")
        seg = r.randint(0, 1)
        ops.append(f"flip {seg}")
        for b, t, n in vals:
            if oom and r.random() < .5:
                ops.append(f"rr {r.randint(1, 50)}")
            else:
                ops.append(f"r {b} {t} {n if t == 10 and not b else 0}")
        ops += ["rr 0", "rr 3", "r 1 3"]
        out.append(ops)
    # input buffers read in every way, to the end and past it.
    for _ in range(400 if c.thorough else 150):
        data = bytes(r.randrange(256) for _ in range(r.randint(0, 30)))
        ops = [r.choice(["open 2"])]
        if data:
            ops.append(f"w 0 10 {hx(data)}")
        ops.append(f"flip {r.randint(0, 1)}")
        for _ in range(20):
            ops.append(r.choice([f"rr {r.randint(0, 9)}", "r 0 7", "r 0 5",
                                 f"r 0 10 {r.randint(0, 6)}"]))
        out.append(ops)
    # user methods: passed through; optional ones defined or not.
    for k in (4, 6, 7, 8):
        for _ in range(60 if c.thorough else 25):
            ops, q = [f"open {k}", f"seg {r.randint(0, 4)}"], []
            for _ in range(r.randint(2, 20)):
                x = r.random()
                if x < .35:
                    ops.append("um " + r.choice(["accept", "sendmsg",
                                                 "recvmsg", "opt"]))
                elif x < .7 or not q:
                    b, t = 1, r.randrange(11)
                    v = rvalue(r, t)
                    ops.append(f"w {b} {t} {hx(v)}")
                    q.append((b, t, v))
                else:
                    ops.append(read_of(*q.pop(0)))
            if r.random() < .3:
                ops += [f"wseg {r.randint(1, 6)}", "w 1 10 0102030405060708"]
            out.append(ops)
    for k in (2, 4, 6, 7):
        for i in range(1, 5):
            out.append([f"!{i} open {k}"])
    # what the type of psock does not offer is refused, and changes nothing.
    for k in (0, 1, 2, 3, 4, 5, 6, 7, 8):
        refs = ["rblk", "wblk", "sdesc", "rdesc"]
        refs += ["w"] if k == 3 else ["out"] if k != 2 else []
        for m in refs:
            for at in (0, 1):
                o = f"open {k}" + (" 0a0b0c" if k == 3 else "")
                mid = [] if k == 3 else ["w 0 5 0102"]
                end = (["flip"] if k == 2 else []) + ["r 0 5"]
                out.append([o, *mid, f"no {m} {at}", *end])
    c.validate("psock", "StreamTrace", c.run("psock", out),
               cfg="StreamTrace.cfg", batch=60000)


CHECKS = {"C14": c14, "C16": c16, "C17": c17}
