"""Build the rcpr library and a harness from the *current* working tree of /repo.

Nothing is written under /repo.  Output goes to a private scratch directory
(one per check run) that the caller removes.
"""
import concurrent.futures
import glob
import os
import subprocess

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SRC_DIRS = [
    "allocator", "auto_reset_trigger", "bigint", "condition",
    "condition/fiber", "fiber/common", "list", "message", "psock",
    "psock/platform/epoll", "queue", "rbtree", "resource", "slist",
    "socket_utilities", "stack", "string", "uuid",
    "platform/pthread/thread", "fiber/platform/sysv/x86_64",
]

CONFIG_H = """#pragma once
#define MAKE_C_VERSION(X,Y) V ## X ## _ ## Y
#define RCPR_VERSION_SYM MAKE_C_VERSION(0, 4)
#define RCPR_VERSION_STRING "0.4.2"
#define RCPR_VTABLE_CHECK_ASSERT
#define RCPR_FIBER_FOUND
#define HAS_PSOCK_ASYNC
"""

# stack instrumentation stays off: fibers run on their own mmapped stacks.
SAN = ["-fsanitize=address", "--param", "asan-stack=0",
       "-fno-omit-frame-pointer"]
BASE = ["-std=gnu11", "-g", "-O1", "-w", "-fPIC", "-D_GNU_SOURCE", "-DNDEBUG"]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def sources():
    out = []
    for d in SRC_DIRS:
        out += sorted(glob.glob(f"{REPO}/src/{d}/*.c"))
        if d.startswith("fiber/platform"):
            out += sorted(glob.glob(f"{REPO}/src/{d}/*.s"))
            out += sorted(glob.glob(f"{REPO}/src/{d}/*.S"))
    return out


def build_config(out, enforce=False):
    inc = os.path.join(out, "include", "rcpr")
    os.makedirs(inc, exist_ok=True)
    with open(os.path.join(inc, "config.h"), "w") as f:
        f.write(CONFIG_H.replace("#define RCPR_VTABLE_CHECK_ASSERT",
                                 "#define RCPR_VTABLE_RUNTIME_ENFORCEMENT")
                if enforce else CONFIG_H)


def build_lib(out, san=True, extra=(), jobs=8, enforce=False):
    """Compile every library source into out/obj and return the object list.

    enforce: the configuration that checks method tables as it goes."""
    obj = os.path.join(out, "obj")
    os.makedirs(obj, exist_ok=True)
    build_config(out, enforce)
    flags = BASE + (SAN if san else []) + list(extra) + includes(out)
    todo = []
    for s in sources():
        o = os.path.join(
            obj, os.path.relpath(s, REPO + "/src").replace("/", "__") + ".o")
        todo.append((s, o))
    # batch several files per compiler start-up cost is not worth it; just -j.
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(_run, ["gcc", *flags,
                                 "-I", os.path.dirname(s), "-c", s, "-o", o])
                for s, o in todo]
        for f in futs:
            f.result()
    return [o for _, o in todo]


def includes(out):
    return ["-I", REPO + "/include", "-I", os.path.join(out, "include"),
            "-I", REPO + "/src", "-I", REPO]


WRAPS = ["malloc", "calloc", "realloc", "free", "mmap", "munmap"]
SYM = "rcpr_u0ec71e88_25af_40aa_8dd9_990d596b60de_V0_4_"
DRIVER_WRAPS = {
    "letgo": [SYM + "slist_pop", "epoll_create1", "fcntl"] + [
        "pthread_" + x for x in
        ["mutex_init", "mutex_destroy", "mutex_lock", "cond_init",
         "cond_destroy", "attr_init", "attr_setstacksize", "create", "join"]],
    "threads": ["pthread_" + x for x in
                ["mutex_init", "mutex_destroy", "mutex_lock", "mutex_unlock",
                 "cond_init", "cond_destroy", "cond_wait", "cond_signal",
                 "cond_broadcast", "attr_init", "attr_destroy",
                 "attr_setstacksize", "create", "join"]],
    "psock": ["read", "write"],
    "conn": ["socket", "bind", "listen", "connect", "accept", "close", "read",
             "recvmsg", "gethostbyname2"],
    "async": ["read", "write", "recv", "send", "recvmsg", "sendmsg", "accept",
              "epoll_wait", "epoll_ctl", "epoll_create1", "fcntl"],
}


def build_harness(out, objs, name, san=True, wraps=True, extra=(), libs=()):
    """Compile harness/<name>.c (+ vh.c) and link with the library objects."""
    exe = os.path.join(out, name)
    flags = BASE + (SAN if san else []) + list(extra) + includes(out)
    flags += ["-I", VERIF + "/harness"]
    hobjs = []
    for src in ([name, "vh"] if wraps else [name]):
        o = os.path.join(out, src + ".h.o")
        _run(["gcc", *flags, "-c", f"{VERIF}/harness/{src}.c", "-o", o])
        hobjs.append(o)
    link = ["gcc", *(SAN if san else []), "-g", "-o", exe, *hobjs, *objs,
            "-lpthread", *libs]
    if wraps:
        link += ["-Wl," + ",".join("--wrap=" + w for w in
                                  WRAPS + DRIVER_WRAPS.get(name, []))]
    _run(link)
    return exe
