"""Shared machinery of the checks: run drivers, validate traces with TLC,
model-check the specifications, report violations and write evidence."""
import collections
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import rcprbuild

VERIF = rcprbuild.VERIF
SPEC = os.path.join(VERIF, "spec")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")
NPROC = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The check itself could not decide (exit 2)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class TlcResult:
    pass


def tlc(workdir, module, cfg, workers=NPROC, timeout=600, mem="6g", extra=()):
    """Run TLC in workdir.  Returns a TlcResult with .rc, .out and counts."""
    meta = tempfile.mkdtemp(prefix="meta", dir=workdir)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss512m",
           "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-config", cfg,
           "-noGenerateSpecTE", *extra, module]
    try:
        p = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timed out on {module}/{cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.rc, r.out = p.returncode, p.stdout
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states",
                   r.out)
    r.generated = int(m[-1][0].replace(",", "")) if m else 0
    r.distinct = int(m[-1][1].replace(",", "")) if m else 0
    m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
    r.depth = int(m.group(1)) if m else 0
    r.ok = r.rc == 0 and "No error has been found" in r.out
    r.deadlock = "Deadlock reached" in r.out
    if re.search(r"StackOverflowError|OutOfMemoryError|OffHeap", r.out):
        raise CheckError(f"TLC ran out of room on {module}/{cfg}")
    return r


# --------------------------------------------------------------------------
# scripts and traces
# --------------------------------------------------------------------------
class Run:
    """Outcome of one script."""
    __slots__ = ("script", "trace", "crash")

    def __init__(self, script, trace=None, crash=None):
        self.script, self.trace, self.crash = script, trace, crash


def script_text(ops):
    return "S\n" + "".join(o + "\n" for o in ops) + "E\n"


class Check:
    """One property check.  Subclass-free: the check script drives it."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.dir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.cov = collections.OrderedDict(
            states=0, transitions=0, traces_validated_against_impl=0,
            events_validated=0, samples=[], runs=[])
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = []
        self.exes = {}
        self.objs = None
        self.enforce = False    # build with method table checks
        self.violation = None
        self.nrun = 0

    # -- build ------------------------------------------------------------
    def build(self, driver, **kw):
        if self.objs is None:
            self.objs = rcprbuild.build_lib(self.dir, enforce=self.enforce)
        if driver not in self.exes:
            self.exes[driver] = rcprbuild.build_harness(
                self.dir, self.objs, driver, **kw)
        return self.exes[driver]

    # -- model checking ---------------------------------------------------
    def mc(self, module, cfg, workers=NPROC, timeout=600, extra=(),
           expect=True):
        """Exhaustively check a design specification with TLC."""
        wd = self.specdir()
        r = tlc(wd, module, cfg, workers, timeout, extra=extra)
        if expect and not r.ok:
            raise CheckError(f"design check {module}/{cfg} failed:\n"
                             + r.out[-3000:])
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["runs"].append(
            {"spec": module, "cfg": cfg, "distinct": r.distinct,
             "generated": r.generated, "depth": r.depth})
        return r

    def specdir(self):
        wd = tempfile.mkdtemp(prefix="tlc", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), wd)
        return wd

    def edges(self, module, cfg, timeout=600):
        """Labelled state graph of a bounded model: [(from, label, to)].

        The model's Emit action constraint prints one line per transition:
        EDGE <json of view> TAB-free json list [from, label, to].
        """
        r = self.mc(module, cfg, workers=1, timeout=timeout)
        out = []
        for ln in r.out.splitlines():
            ln = ln.strip()
            if ln.startswith('"[') or ln.startswith('"{'):
                ln = json.loads(ln)
            if ln.startswith('{"f":'):
                d = json.loads(ln)
                out.append((json.dumps(d["f"], sort_keys=True),
                            d["a"], json.dumps(d["t"], sort_keys=True)))
        return out

    def simulate(self, module, cfg, num, depth, timeout=600):
        """Random behaviours of a specification: label sequences."""
        wd = self.specdir()
        out, k = [], min(NPROC, max(1, num // 50))
        def one(i):
            return tlc(wd, module, cfg, workers=1, timeout=timeout, mem="2g",
                       extra=["-simulate", f"num={num // k + 1}",
                              "-depth", str(depth), "-seed",
                              str(self.seed * 1000 + i)])
        with ThreadPoolExecutor(k) as ex:
            for r in ex.map(one, range(k)):
                got = [json.loads(json.loads(x)[4:]) for x in r.out.split("\n")
                       if x.startswith('"SIM ')]
                if r.rc != 0 or not got:
                    raise CheckError(f"simulation {module}/{cfg}:\n"
                                     + r.out[-3000:])
                out += got
        self.cov["runs"].append({"spec": module, "cfg": cfg,
                                 "simulated_behaviours": len(out)})
        return out

    # -- run scripts ------------------------------------------------------
    def run(self, driver, scripts, timeout=300, env=None, exe=None,
            nproc=NPROC):
        """Execute scripts (lists of op lines); returns list of Run."""
        exe = exe or self.build(driver)
        n = len(scripts)
        if n == 0:
            return []
        k = max(1, min(nproc, (n + 3) // 4))
        chunks = [list(range(i, n, k)) for i in range(k)]
        res = [None] * n
        with ThreadPoolExecutor(k) as ex:
            for part in ex.map(
                    lambda idx: self._run_chunk(exe, scripts, idx, timeout,
                                                env), chunks):
                for i, r in part:
                    res[i] = r
        return res

    def _run_chunk(self, exe, scripts, idx, timeout, env):
        wd = tempfile.mkdtemp(prefix="run", dir=self.dir)
        inp, outp = os.path.join(wd, "in"), os.path.join(wd, "out")
        with open(inp, "w") as f:
            for i in idx:
                f.write(script_text(scripts[i]))
        open(outp, "w").close()
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:"
                             "allocator_may_return_null=1:handle_segv=1:"
                             "detect_stack_use_after_return=0:"
                             "use_sigaltstack=0")
        e.update(env or {})
        crashes, pos, deaths = {}, 0, 0
        deadline = time.time() + timeout
        done = 0
        while pos < len(idx):
            try:
                p = subprocess.run([exe, inp, outp, str(pos)], cwd=wd, env=e,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE,
                                   timeout=max(5, deadline - time.time()))
                rc, err = p.returncode, p.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired as x:
                rc = -signal.SIGALRM
                err = "driver exceeded its time"
            with open(outp) as f:
                lines = f.read().split("\n")
            done = len([x for x in lines if x])
            if rc == 0:
                break
            if rc == 3 or "HARNESS:" in err:
                raise CheckError("driver misuse: " + err[-600:])
            # script number `done + crashed so far` died.
            k = done + len(crashes)
            why = ("hang (no completion within the alarm)"
                   if rc == -signal.SIGALRM else describe_crash(rc, err))
            crashes[k] = why
            pos = k + 1
            deaths += 1
            if deaths >= 12:
                break
        with open(outp) as f:
            lines = [x for x in f.read().split("\n") if x]
        out, li = [], 0
        for j, i in enumerate(idx):
            if j in crashes:
                out.append((i, Run(scripts[i], crash=crashes[j])))
            elif li < len(lines):
                out.append((i, Run(scripts[i], trace=lines[li])))
                li += 1
            else:
                out.append((i, Run(scripts[i], crash="not run")))
        shutil.rmtree(wd, ignore_errors=True)
        return out

    # -- trace validation -------------------------------------------------
    def tlc_traces(self, module, traces, cfg=None, timeout=600, consts=None):
        """Validate traces.  Returns None or (index, position, tlc-result)."""
        wd = self.specdir()
        with open(os.path.join(wd, "traces.ndjson"), "w") as f:
            for t in traces:
                f.write(t + "\n")
        cfgname = cfg or "Trace.cfg"
        nev = sum(t.count('{"op":') for t in traces)
        r = tlc(wd, module, cfgname, timeout=timeout,
                workers=NPROC if nev > 400 else 1)
        shutil.rmtree(wd, ignore_errors=True)
        if r.ok:
            return None, r
        # the script and position reached.
        s = re.findall(r"/\\ s = (\d+)", r.out)
        l = re.findall(r"/\\ l = (\d+)", r.out)
        return ((int(s[-1]) - 1 if s else 0), (int(l[-1]) if l else 0)), r

    def validate(self, driver, module, runs, cfg=None, timeout=600,
                 batch=150000, env=None, label="", exe=None):
        """Judge runs.  Raises Violation for a repeatable rejection."""
        # 1. crashes and hangs.
        bad = [r for r in runs if r.crash and r.crash != "not run"]
        for r in bad[:4]:
            again = self.run(driver, [r.script], env=env, exe=exe)[0]
            if again.crash:
                self.report(r.script, None,
                            f"{driver}: script {again.crash}", driver)
        good = [r for r in runs if r.trace]
        if not bad and len(good) != len(runs):
            raise CheckError("driver lost scripts")
        # 2. TLC.  Identical traces are validated once.
        seen, uniq = set(), []
        for r in good:
            h = hashlib.sha1(r.trace.encode()).digest()
            if h not in seen:
                seen.add(h)
                uniq.append(r)
        i = 0
        while i < len(uniq):
            part, nev = [], 0
            while i < len(uniq) and (nev < batch or not part):
                part.append(uniq[i])
                nev += uniq[i].trace.count('{"op":')
                i += 1
            self._validate_part(driver, module, part, nev, cfg, timeout, env,
                                exe)
        for r in good[:1] + good[len(good) // 2:len(good) // 2 + 1]:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append(
                    {"script": " ; ".join(r.script)[:400],
                     "trace": r.trace[:600]})

    def _validate_part(self, driver, module, part, nev, cfg, timeout, env,
                       exe):
        flaky = 0
        while part:
            hit, r = self.tlc_traces(module, [x.trace for x in part], cfg,
                                     timeout)
            if hit is None:
                self.cov["states"] += r.distinct
                self.cov["transitions"] += r.generated
                self.cov["traces_validated_against_impl"] += len(part)
                self.cov["events_validated"] += nev
                return
            if "Parse Error" in r.out or "Semantic error" in r.out:
                raise CheckError("specification error:\n" + r.out[-3000:])
            k, pos = hit
            suspect = part[k]
            again = self.run(driver, [suspect.script], env=env, exe=exe)[0]
            if again.crash:
                self.report(suspect.script, None,
                            f"{driver}: script {again.crash}", driver)
            h2, r2 = self.tlc_traces(module, [again.trace], cfg, timeout)
            if h2 is not None:
                self.report(suspect.script, again.trace,
                            explain(again.trace, h2[1], r2, module), driver)
            flaky += 1
            if h2 is None and flaky > 3:
                raise CheckError("a rejection did not repeat: "
                                 + explain(suspect.trace, pos, r, module))
            part = part[:k] + part[k + 1:]

    # -- verdicts ---------------------------------------------------------
    def report(self, script, trace, what, driver):
        raise Violation(what, self.write_replay(script, trace, what, driver))

    def write_replay(self, script, trace, what, driver):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}.txt")
        with open(path, "w") as f:
            f.write(f"# property {self.prop}, driver harness/{driver}.c\n")
            f.write("# " + what.replace("\n", "\n# ") + "\n")
            f.write(script_text(script))
            if trace:
                f.write("# trace recorded from the code:\n")
                f.write("# " + trace + "\n")
        return path

    def known_finding(self, fid, holds):
        """A listed finding was re-tested; `holds`: it still fails."""
        ent = self.known.get(fid)
        if ent and holds:
            print(f"KNOWN-FINDING: property={self.prop} {ent}")
            self.known_hit.append(fid)
        return bool(ent)

    def finish(self, code):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": 1 if self.violation else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if self.level in ("exploration", "fault_enumeration"):
            self.cov.setdefault("evaluations",
                                self.cov["traces_validated_against_impl"])
        if not self.cov["samples"]:
            self.cov["samples"] = ["none"]
        with open(os.path.join(VERIF, "evidence",
                               f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        sys.exit(code)


def describe_crash(rc, err):
    m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", err)
    if m:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) ([^\n]*)", err)
        at = ", ".join(f"{a} {os.path.basename(b)}" for a, b in fr[:5])
        return f"crashed: {m.group(1)[:160]} at {at}"
    return f"crashed: exit {rc}: {err.strip()[-300:]}"


def explain(trace, pos, r, module):
    try:
        ev = json.loads(trace)
    except ValueError:
        return f"{module}: unreadable trace"
    what = f"{module}: the specification does not allow event {pos}"
    if 1 <= pos <= len(ev):
        what += ": " + json.dumps(ev[pos - 1])[:500]
    if not r.deadlock:
        m = re.search(r"Error: (.*)", r.out)
        tail = m.group(1) if m else r.out[-300:]
        what += f" (TLC: {tail[:300]})"
    return what


def load_known(prop):
    out = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for ln in f:
                m = re.match(r"known: property=(\S+) id=(\S+) (.*)", ln)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return out


# --------------------------------------------------------------------------
# script generation from a state graph
# --------------------------------------------------------------------------
def cover_edges(edges, init, maxlen=60, limit=None, rng=None):
    """Scripts (lists of labels) that together take every edge."""
    succ = collections.defaultdict(list)
    for f, a, t in edges:
        succ[f].append((a, t))
    todo = {(f, a, t) for f, a, t in edges}
    order = list(dict.fromkeys(edges))
    todo_by = collections.defaultdict(collections.OrderedDict)
    for e in order:
        todo_by[e[0]][e] = 1
    scripts = []
    # BFS parents from init, for re-entry.
    par = {init: None}
    q = collections.deque([init])
    while q:
        u = q.popleft()
        for a, t in succ[u]:
            if t not in par:
                par[t] = (u, a)
                q.append(t)

    def path_to(u):
        p = []
        while par[u] is not None:
            v, a = par[u]
            p.append((v, a, u))
            u = v
        return p[::-1]

    def nearest(u, cap):
        """shortest path from u to a state with an uncovered edge."""
        seen, dq = {u: None}, collections.deque([(u, 0)])
        while dq:
            v, d = dq.popleft()
            if todo_by.get(v):
                p = []
                while seen[v] is not None:
                    w, a = seen[v]
                    p.append((w, a, v))
                    v = w
                return p[::-1]
            if d < cap:
                for a, t in succ[v]:
                    if t not in seen:
                        seen[t] = (v, a)
                        dq.append((t, d + 1))
        return None

    pending = collections.deque(u for u in par if todo_by.get(u))
    while pending:
        u = pending[0]
        if not todo_by.get(u):
            pending.popleft()
            continue
        seq = path_to(u)
        for e in seq:
            todo_by[e[0]].pop(e, None)
        cur = u
        while len(seq) < maxlen:
            if todo_by.get(cur):
                e, _ = todo_by[cur].popitem(last=False)
                seq.append(e)
                cur = e[2]
                continue
            p = nearest(cur, 6)
            if not p:
                break
            for e in p:
                seq.append(e)
                todo_by[e[0]].pop(e, None)
            cur = p[-1][2]
        scripts.append([a for _, a, _ in seq])
        if limit and len(scripts) >= limit:
            break
    return scripts


def main(prop, fn, level="model_checking"):
    c = Check(prop, level)
    try:
        fn(c)
    except Violation as v:
        c.violation = v.what
        print(f"{prop}: {v.what}")
        print(f"VIOLATION property={prop} replay={v.replay}")
        c.finish(1)
    except (CheckError, rcprbuild.BuildError) as e:
        print(f"ERROR property={prop}: {e}", file=sys.stderr)
        shutil.rmtree(c.dir, ignore_errors=True)
        sys.exit(2)
    except BaseException:
        shutil.rmtree(c.dir, ignore_errors=True)
        raise
    print(f"OK property={prop} traces="
          f"{c.cov['traces_validated_against_impl']} events="
          f"{c.cov['events_validated']} states={c.cov['states']} "
          f"wall={time.time() - c.t0:.1f}s")
    c.finish(0)
