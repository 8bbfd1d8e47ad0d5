"""Memory runs out (C07): every allocation of every operation, one at a time,
fails in histories generated from the specifications."""
import collections
import json

import chk_async
import chk_containers as con
import chk_fibers as fib
import chk_proc
import chk_psock
import chk_small
import vlib


def name(line):
    return line.split()[0]


def plain(scripts):
    return [[o for o in s if not o.startswith("!")] for s in scripts]


def sweep(c, driver, module, scripts, per_op, skip=(), start=0, most=12,
          only=None, excuse=None, **kw):
    """For each operation, up to per_op places in scripts: fail its first
    allocation, its second, ... until it makes no more, and judge the whole
    history, before and after."""
    at = collections.defaultdict(list)
    for s in plain(scripts):
        for i in range(start, len(s)):
            op = name(s[i])
            if op not in skip and (only is None or op in only):
                # a waiting management fiber hears of fibers coming and going.
                near = op in ("add", "exit") and any(
                    name(x) == "mgmt" for x in s[max(0, i - 3):i])
                at[op, near].append((s, i))
    live = []
    for op in sorted(at):
        live += c.rng.sample(at[op], min(len(at[op]), per_op))
    fired = collections.Counter()
    for n in range(1, most + 1):
        # that one only, or that one and all after it.
        runs = c.run(driver, [s[:i] + [f"!{c.rng.choice(('', '', '-'))}{n} "
                                       + s[i]] + s[i + 1:]
                              for s, i in live], **kw)
        keep = []
        for (s, i), r in zip(live, runs):
            ev = None if r.crash else json.loads(r.trace)
            if r.crash or any(e.get("oom") for e in ev):
                stop = [j for j, e in enumerate(ev or ()) if e["op"] == "diverged"]
                if stop:    # the rest needed what could not be made.
                    r.trace = json.dumps(ev[:stop[0]], separators=(",", ":"))
                keep.append(((s, i), r))
                fired[f"{name(s[i])}!{n}"] += 1
        live = [x for x, _ in keep]
        if not live:
            break
        c.validate(driver, module, [r for _, r in keep if not (
            r.crash and excuse and excuse(c, r.script))],
                   cfg=module + ".cfg", **kw)
    hit = c.cov.setdefault("failed_allocations", {})
    for x, y in sorted(fired.items()):
        hit[f"{driver} {x}"] = hit.get(f"{driver} {x}", 0) + y
    if live and most > 6:
        raise vlib.CheckError(f"{driver}: operations with more allocations")


def misuse(c, script):
    """A history that crashed: had it, after the failure, asked for something
    the specification's Guard forbids (resuming a fiber twice, ...)?"""
    lo, hi = 0, len(script)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if c.run("fiber", [script[:mid]])[0].crash:
            hi = mid
        else:
            lo = mid
    r = c.run("fiber", [script[:lo]])[0]
    if r.crash:
        return False
    ev = json.loads(r.trace)[:-1]
    if not ev or "g" not in ev[-1] or script[lo].startswith("!"):
        return False
    op = [int(x) if i else x for i, x in enumerate(script[lo].split())]
    ev.append(dict(zip(("op", "a", "b", "c", "d"), op), f=ev[-1]["g"], g=-9,
                   cur=-9, k="crash", r={}, rel=[], cb=[], oom=0))
    hit, res = c.tlc_traces("SchedTrace", [json.dumps(ev)], "SchedTrace.cfg")
    return hit is None


def c07(c):
    k = 6 if c.thorough else 1
    for d in ("fiber", "rbtree", "own", "psock", "async", "alloc", "small",
              "text", "threads", "ctx"):
        c.build(d)
    scripts = []
    for cfg, n in (("msg3", 3), ("cond2", 2), ("base2", 2), ("req", 2),
                   ("disc", 1), ("idle", 2)):
        scripts += fib.from_graph(c, cfg, n)
    for cfg, n in (("sim_base", 5), ("sim_msg", 5), ("sim_cond", 5),
                   ("sim_disc", 4)):
        scripts += fib.from_sim(c, cfg, n, 60 * k)
    # whatever could not be made can be made later.
    scripts = [s[:2] + ["mdg", "mdg", "cdg", "cdg"] + s[4:] for s in scripts]
    sweep(c, "fiber", "SchedTrace", scripts, 40 * k, most=20,
          excuse=misuse)
    sweep(c, "rbtree", "RbtreeTrace", con.rb_random(c, 60 * k, False), 60 * k)
    for kind, d in con.SQ_DEF.items():
        c.exes.pop("seqs", None)
        c.build("seqs", extra=d)
        sweep(c, "seqs", "SeqsTrace", con.sq_random(c, kind, 60 * k), 60 * k)
    own = [con.own_script(c, p) for p in
           c.simulate("Own", "Own_sim.cfg", 150 * k, 62)]
    sweep(c, "own", "OwnTrace", own, 60 * k)
    sweep(c, "psock", "StreamTrace", c.rng.sample(chk_psock.c14_scripts(c), 300),
          40 * k)
    sweep(c, "psock", "StreamTrace", [
        ["open 2", f"w 0 10 @{a}:3", "w 1 9 616263", f"w 1 10 @{b}:9",
         "w 0 5 0102", f"flip {a % 2}", f"r 0 10 {a}", "r 1 9", "r 1 10",
         "r 0 5"] for a in (1, 4087, 4095, 4096, 4097)
        for b in (1, 4096, 9000)], 15)
    asy = chk_async.random_streams(c, 60 * k) + chk_async.conns(c, 60 * k)
    sweep(c, "async", "AsyncTrace", asy, 40 * k, most=50, only=("open",))
    sweep(c, "alloc", "AllocTrace", [
        ["probe", "mn 0", "a 0 40", "a 0 0", "l 0 0 90", "l 0 0 5", "a 0 7",
         "l 0 1 4000", "f 0 0", "mn 1", "a 1 9", "f 0 1", "f 0 2", "f 1 0"],
        ["mn 0", "a 0 1", "l 0 0 70000", "a 0 3", "f 0 1", "l 0 0 1"]], 9)
    sweep(c, "small", "SmallTrace", [
        ["tn 0", "tr 0 5 0", "tn 1", "ts 1", "tr 1 9 1", "ts 0", "tp 0",
         "tf 1", "tn 1"],
        ["gn 0 100", "gp 0 1 77 1", "gc 1 0", "gr 0", "gr 1", "gn 2 64",
         "gc 3 2", "kn 0 4096", "kn 1 30000", "kf 0", "kn 0 16"]], 9)
    rnd = ["sc 61 - 6263", "sc - -", "sd 6162", "us " + "5a" * 16, "sc",
           "sd -", "wd 6120", "sc 61626364 2020 ff"]
    sweep(c, "text", "TextTrace", [rnd, rnd[::-1]], 9)
    sweep(c, "threads", "ThreadsTrace", [
        ["mk mutex", "mk cond", "tn 0", "tn 1 big", "lk 0 0", "tn 2", "ex 0 7",
         "jn 0", "tn 0", "ex 1 3", "jn 1", "mk mutex"]], 9)
    sweep(c, "ctx", "ContextTrace", chk_proc.ctx_scripts(c, "proto")[-60:],
          30 * k, only=("cr", "fn"))


CHECKS = {"C07": (c07, "fault_enumeration")}
