/* Driver for asynchronous psocks on a fiber scheduler.
 *
 * Real sockets, real epoll.  Whichever fiber runs takes the next operation
 * of the script; the other end of every socket is played here.  Events: the
 * call a fiber makes, every system call the library makes for it, what the
 * call returns, and what the library's idle fiber waits for ("poll": n is
 * how many events epoll had, rd and wr which sockets were really readable
 * and writable).  Peer operations come from a second list: one at each
 * "env", and one whenever the library would wait for ever. */
#include "vh.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <rcpr/allocator.h>
#include <rcpr/fiber.h>
#include <rcpr/psock.h>
#include <rcpr/uuid.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_fiber;
RCPR_IMPORT_psock;
RCPR_IMPORT_resource;
RCPR_IMPORT_uuid;
#include "forge.h"

#define NF 26
#define NS 21
#define STACK 131072
#define MAXOPS 2048
#define BIG (1 << 18)

enum { K_STREAM, K_BR, K_LISTEN, K_DGRAM, K_SDGRAM, K_SSTREAM };
#define ASYNC(k) ((k) <= K_DGRAM)

static allocator* alloc;
static fiber_scheduler* sched;
static fiber* fib[NF];
static int held[NF];
static long slot[NF];

static struct sock
{
    int open, kind, lib, peer;      /* descriptors */
    psock *ps, *rd, *in; psock_br* br;      /* in: what ps wraps */
    int closed;                     /* the peer has closed */
    int rdead, wdead, full;
    long ws[64]; int nws, iws;      /* write script */
    uint8_t exp[BIG]; uint8_t mine[BIG]; size_t nexp;
    char path[64];
    int nconn, own;
} S[NS];
static int uh[NF];

static int pipes[8][2];
static char dirname_[64];

struct pend { const char* k; int i; int dir; int waiting; };
static struct pend pend[NF];

struct op { char* line; int arm; };
static struct op ops[MAXOPS], env[MAXOPS];
static int nops, pc, nenv, ec;
static int ce;                  /* 1 + the socket epoll_ctl fails for */
static int openfail, openhit;
static int hid[4] = { 0, 1, 2, 3 };

ssize_t __real_read(int fd, void* p, size_t n);
ssize_t __real_write(int fd, const void* p, size_t n);
ssize_t __real_recv(int fd, void* p, size_t n, int f);
ssize_t __real_send(int fd, const void* p, size_t n, int f);
ssize_t __real_sendmsg(int fd, const struct msghdr* m, int f);
ssize_t __real_recvmsg(int fd, struct msghdr* m, int f);
int __real_accept(int fd, struct sockaddr* a, socklen_t* l);
int __real_epoll_wait(int ep, struct epoll_event* e, int n, int t);
int __real_epoll_ctl(int ep, int o, int fd, struct epoll_event* e);
int __real_epoll_create1(int f);
int __real_fcntl(int fd, int c, long a);

static void over(void) __attribute__((noreturn));
static int lib_sock(int fd)
{
    if (sched)
        for (int i = 0; i < NS; ++i)
            if (S[i].open && S[i].lib == fd) return i;
    return -1;
}
static int cur(void)
{
    fiber* c = NULL;
    if (disciplined_fiber_scheduler_current_fiber_get(&c, sched))
        vh_lib("current");
    for (int i = 0; i < NF; ++i) if (fib[i] && fib[i] == c) return i;
    return -1;
}
static void sysev(int i, const char* d, size_t n, ssize_t r, const void* p)
{
    int f = cur(), e = errno;
    ev_open("sys"); ev_int("f", f); ev_int("i", i); ev_str("dir", d);
    ev_int("n", n > BIG ? BIG : (long)n);
    ev_str("r", r > 0 || (r == 0 && d[0] != 'r') ? "ok" : r == 0 ? "eof"
           : e == EAGAIN ? "again" : "err");
    ev_bytes("v", p, r > 0 && p ? (size_t)r : 0);
    ev_close();
    if (f >= 0)
        pend[f].waiting = r < 0 && e == EAGAIN;
    errno = e;
}
static ssize_t rd_(int fd, void* p, size_t n)
{
    int i = lib_sock(fd);
    ssize_t r = __real_read(fd, p, n);
    if (i >= 0) sysev(i, "r", n, r, p);
    return r;
}
static ssize_t wr_(int fd, const void* p, size_t n)
{
    int i = lib_sock(fd);
    if (i < 0) return __real_write(fd, p, n);
    ssize_t r; size_t m = n;
    if (S[i].iws < S[i].nws)
    {
        long k = S[i].ws[S[i].iws++];
        if (k == 0) { errno = EAGAIN; sysev(i, "w", n, -1, NULL); errno = EAGAIN; return -1; }
        if (k > 0 && (size_t)k < m) m = (size_t)k;
    }
    r = __real_write(fd, p, m);
    if (r > 0)
    {
        if (S[i].nexp + r > BIG) vh_die("too much written");
        memcpy(S[i].exp + S[i].nexp, p, r);
        memset(S[i].mine + S[i].nexp, 1, r);
        S[i].nexp += r;
    }
    sysev(i, "w", n, r, p);
    return r;
}
ssize_t __wrap_read(int fd, void* p, size_t n) { return rd_(fd, p, n); }
ssize_t __wrap_recv(int fd, void* p, size_t n, int f)
{ return f ? __real_recv(fd, p, n, f) : rd_(fd, p, n); }
ssize_t __wrap_write(int fd, const void* p, size_t n) { return wr_(fd, p, n); }
ssize_t __wrap_send(int fd, const void* p, size_t n, int f)
{ return wr_(fd, p, n); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int f)
{
    int i = lib_sock(fd);
    if (i >= 0 && S[i].iws < S[i].nws && !S[i].ws[S[i].iws++])
    { errno = EAGAIN; sysev(i, "w", 1, -1, NULL); errno = EAGAIN; return -1; }
    ssize_t r = __real_sendmsg(fd, m, f);
    if (i >= 0) sysev(i, "w", 1, r, NULL);
    return r;
}
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int f)
{
    int i = lib_sock(fd);
    ssize_t r = __real_recvmsg(fd, m, f);
    if (i >= 0) sysev(i, "r", 1, r, NULL);
    return r;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l)
{
    int i = lib_sock(fd);
    int r = __real_accept(fd, a, l);
    if (i >= 0) sysev(i, "r", 1, r < 0 ? r : 1, NULL);
    return r;
}

int __wrap_epoll_create1(int f)
{
    if (openfail == 1) { openhit = 1; errno = EMFILE; return -1; }
    return __real_epoll_create1(f);
}
int __wrap_fcntl(int fd, int c, long a)
{
    if (openfail == 2 && c == F_SETFL) { openhit = 1; errno = EBADF; return -1; }
    if (openfail == 3 && c == F_GETFL) { openhit = 1; errno = EBADF; return -1; }
    return __real_fcntl(fd, c, a);
}
int __wrap_epoll_ctl(int ep, int o, int fd, struct epoll_event* e)
{
    int i = lib_sock(fd), f;
    if (ce && i == ce - 1 && (f = cur()) >= 0)
    {
        ce = 0;
        ev_open("ctl"); ev_int("f", f); ev_int("i", i); ev_close();
        errno = ENOMEM;
        return -1;
    }
    return __real_epoll_ctl(ep, o, fd, e);
}

/* ---- the idle fiber waits: run on a stack of our own, its is small. */
static struct { int ep, max, r, e; struct epoll_event* ev; } W;
static void do_env(void);
static void waiting(void)
{
    for (;;)
    {
        if (ec < nenv && !strcmp(env[ec].line, "pi"))
        {   /* a signal arrives. */
            ++ec; W.r = -1; W.e = EINTR;
            ev_open("intr"); ev_close();
            return;
        }
        long rd[NS], wr[NS]; int nr = 0, nw = 0;
        for (int i = 0; i < NS; ++i)
        {
            if (!S[i].open || !ASYNC(S[i].kind)) continue;
            struct pollfd p = { S[i].lib, POLLIN | POLLOUT, 0 };
            poll(&p, 1, 0);
            if (p.revents & (POLLIN | POLLHUP | POLLERR)) rd[nr++] = i;
            if (p.revents & (POLLOUT | POLLHUP | POLLERR)) wr[nw++] = i;
        }
        W.r = __real_epoll_wait(W.ep, W.ev, W.max, 0); W.e = errno;
        ev_open("poll"); ev_int("n", W.r); ev_ints("rd", rd, nr);
        ev_ints("wr", wr, nw); ev_close();
        if (W.r != 0)
        {
            for (int f = 0; f < NF; ++f)
                for (int k = 0; k < (nr > nw ? nr : nw); ++k)
                    if (pend[f].waiting
                     && ((pend[f].dir == 'r' && k < nr && rd[k] == pend[f].i)
                      || (pend[f].dir == 'w' && k < nw && wr[k] == pend[f].i)))
                        pend[f].waiting = 0;
            return;
        }
        if (ec >= nenv) over();
        do_env();
    }
}
static char bigstack[1 << 18] __attribute__((aligned(64)));
int __wrap_epoll_wait(int ep, struct epoll_event* e, int n, int t)
{
    if (!sched) return __real_epoll_wait(ep, e, n, t);
    W.ep = ep; W.max = n; W.ev = e;
    char* top = bigstack + sizeof bigstack - 64;
    __asm__ volatile(
        "mov %%rsp, %%rbx\n\tmov %0, %%rsp\n\tcall *%1\n\tmov %%rbx, %%rsp"
        : : "r"(top), "r"(&waiting)
        : "rbx", "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11",
          "memory", "cc");
    errno = W.e;
    return W.r;
}

/* ---- arguments ---- */
static uint8_t arg[BIG]; static size_t narg;
static int hexd(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void value(const char* a)
{
    narg = 0;
    if (!a || *a == '-') return;
    for (; a[0] && a[1]; a += 2) arg[narg++] = hexd(a[0]) * 16 + hexd(a[1]);
}
static const int width[] = { 8, 8, 4, 4, 2, 2, 1, 1, 1 };
static uint64_t be(void)
{
    uint64_t v = 0;
    for (size_t i = 0; i < narg; ++i) v = v << 8 | arg[i];
    return v;
}
static void unbe(uint64_t v, int n)
{
    narg = n;
    for (int i = n - 1; i >= 0; --i) { arg[i] = (uint8_t)v; v >>= 8; }
}
static int split(char* line, char** av)
{
    int ac = 0; char* sv;
    for (char* t = strtok_r(line, " ", &sv); t && ac < 80;
         t = strtok_r(NULL, " ", &sv))
        av[ac++] = t;
    av[ac] = NULL;
    return ac;
}
static int which_pipe(int fd)
{
    struct stat a, b;
    if (fstat(fd, &a)) return -1;
    for (int k = 1; k < 8; ++k)
        if (!fstat(pipes[k][0], &b) && a.st_ino == b.st_ino
            && a.st_dev == b.st_dev)
            return k;
    return 0;
}

/* ---- the other ends ---- */
static int bad_s(int i) { return i < 0 || i >= NS || !S[i].open; }
static void do_env(void)
{
    char line[4096]; char* av[82];
    if (ec >= nenv) return;
    snprintf(line, sizeof line, "%s", env[ec++].line);
    int ac = split(line, av);
    const char* o = av[0];
    int i = ac > 1 ? atoi(av[1]) : 0;
    if (o[1] == 'i' || bad_s(i) || S[i].closed) return;
    struct sock* s = &S[i];
    int stream = s->kind == K_STREAM || s->kind == K_BR || s->kind == K_SSTREAM;
    int dgram = s->kind == K_DGRAM || s->kind == K_SDGRAM;
    if (!strcmp(o, "pf") && stream)
    {
        value(av[2]);
        if (__real_write(s->peer, arg, narg) != (ssize_t)narg) vh_die("feed");
        ev_open("pf"); ev_int("i", i); ev_bytes("v", arg, narg); ev_close();
    }
    else if (!strcmp(o, "pc") && stream)
    {
        close(s->peer); s->peer = -1; s->closed = 1;
        ev_open("pc"); ev_int("i", i); ev_close();
    }
    else if (!strcmp(o, "pfill") && stream)
    {
        static char z[4096]; ssize_t r; size_t n = sizeof z;
        for (;;)
        {
            r = __real_write(s->lib, z, n);
            if (r > 0)
            {
                if (s->nexp + r > BIG) vh_die("filler");
                memset(s->exp + s->nexp, 0, r); memset(s->mine + s->nexp, 0, r);
                s->nexp += r;
            }
            else if (n > 1) n = n / 8 ? n / 8 : 1;
            else break;
        }
        s->full = 1;
        ev_open("pfill"); ev_int("i", i); ev_close();
    }
    else if (!strcmp(o, "pd") && stream)
    {
        static uint8_t got[BIG]; size_t n = 0, m = 0; ssize_t r;
        while ((r = __real_recv(s->peer, got + n, BIG - n, MSG_DONTWAIT)) > 0)
            n += r;
        int okay = n == s->nexp && !memcmp(got, s->exp, n);
        for (size_t k = 0; k < n; ++k)
            if (k >= s->nexp || s->mine[k]) got[m++] = got[k];
        s->nexp = 0; s->full = 0;
        ev_open("pd"); ev_int("i", i); ev_int("same", okay);
        ev_bytes("v", got, m); ev_close();
    }
    else if (!strcmp(o, "pk") && s->kind == K_LISTEN)
    {
        int c = socket(AF_UNIX, SOCK_STREAM, 0); uint8_t id = ++s->nconn;
        struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
        strcpy(a.sun_path, s->path);
        if (connect(c, (void*)&a, sizeof a)) vh_die("connect");
        if (__real_write(c, &id, 1) != 1) vh_die("id");
        close(c);
        ev_open("pk"); ev_int("i", i); ev_int("id", id); ev_close();
    }
    else if (!strcmp(o, "ps") && dgram)
    {
        int k = atoi(av[2]) % 8;
        struct msghdr m; struct iovec io; char b[64], x = 7;
        memset(&m, 0, sizeof m); memset(b, 0, sizeof b);
        io.iov_base = &x; io.iov_len = 1; m.msg_iov = &io; m.msg_iovlen = 1;
        if (k)
        {
            m.msg_control = b; m.msg_controllen = CMSG_SPACE(sizeof(int));
            struct cmsghdr* c = CMSG_FIRSTHDR(&m);
            c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS;
            c->cmsg_len = CMSG_LEN(sizeof(int));
            memcpy(CMSG_DATA(c), &pipes[k][0], sizeof(int));
        }
        if (__real_sendmsg(s->peer, &m, MSG_DONTWAIT) < 0) return;
        ev_open("ps"); ev_int("i", i); ev_int("id", k); ev_close();
    }
    else if (!strcmp(o, "pg") && dgram)
    {
        struct msghdr m; struct iovec io; char b[64], x[16]; int d = -1;
        memset(&m, 0, sizeof m);
        io.iov_base = x; io.iov_len = sizeof x; m.msg_iov = &io; m.msg_iovlen = 1;
        m.msg_control = b; m.msg_controllen = sizeof b;
        ssize_t r = __real_recvmsg(s->peer, &m, MSG_DONTWAIT);
        struct cmsghdr* c = r < 0 ? NULL : CMSG_FIRSTHDR(&m);
        if (c && c->cmsg_type == SCM_RIGHTS) memcpy(&d, CMSG_DATA(c), sizeof d);
        ev_open("pg"); ev_int("i", i);
        ev_int("id", r < 0 ? -1 : d < 0 ? 0 : which_pipe(d)); ev_close();
        if (d >= 0) close(d);
    }
}

/* ---- the fibers ---- */
static status handler(void* ctx, fiber* f, const rcpr_uuid* id, int e,
                      void* p, const rcpr_uuid* xid, int xe)
{
    int h = *(int*)ctx, ff = -1;
    for (int i = 0; i < NF; ++i) if (fib[i] == f) ff = i;
    ev_open("hnd"); ev_int("f", cur()); ev_int("h", h); ev_int("hf", ff);
    ev_int("mg", !memcmp(id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16)
           && e == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST);
    ev_int("x", memcmp(xid, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE, 16) ? -1 : xe);
    ev_close();
    int c = cur();
    if (c >= 0 && h == 1) pend[c].waiting = 1;
    return h == 1 ? STATUS_SUCCESS
         : h == 2 ? ERROR_GENERAL_INVALID_ARGUMENTS : ERROR_PSOCK_READ_EOF;
}
static void ret(int me, const char* k, status st)
{
    ev_open("ret"); ev_int("f", me); ev_str("k", k); ev_status(st);
}
static int other(int me, int i, int dir)
{
    for (int f = 0; f < NF; ++f)
        if (f != me && pend[f].k && pend[f].i == i && pend[f].dir == dir)
            return 1;
    return 0;
}
static void call(int me, const char* k, int i, int dir, int b, int t, long n)
{
    ev_open("call"); ev_int("f", me); ev_str("k", k); ev_int("i", i);
    ev_int("b", b); ev_int("t", t); ev_int("n", n);
    ev_bytes("v", arg, narg); ev_close();
    pend[me].k = k; pend[me].i = i; pend[me].dir = dir; pend[me].waiting = 0;
}
static void leave(int me) { pend[me].k = NULL; pend[me].waiting = 0; }

static status write_value(psock* s, int boxed, int t)
{
    status st = -1; uint64_t v = t <= 8 ? be() : 0;
    /* the fiber may be suspended and others use arg: a copy. */
    uint8_t* d = vh_xmalloc(narg + 1); memcpy(d, arg, narg); d[narg] = 0;
    size_t n = narg;
#define WW(i, T, m) case i: st = boxed ? psock_write_boxed_##m(s, (T)v) \
                                       : psock_write_raw_##m(s, (T)v); break;
    switch (t)
    {
        WW(0, int64_t, int64) WW(1, uint64_t, uint64) WW(2, int32_t, int32)
        WW(3, uint32_t, uint32) WW(4, int16_t, int16) WW(5, uint16_t, uint16)
        WW(6, int8_t, int8) WW(7, uint8_t, uint8) WW(8, bool, bool)
        case 9: st = psock_write_boxed_string(s, (char*)d); break;
        case 10: st = boxed ? psock_write_boxed_data(s, d, n)
                            : psock_write_raw_data(s, d, n); break;
        default: vh_die("type");
    }
    vh_xfree(d);
    return st;
}
static status read_value(psock* s, int boxed, int t, size_t n)
{
    status st = -1; uint64_t v = 0; void* p = NULL; size_t len = 0;
#define RR(i, T, m) case i: { T x = 0; \
        st = boxed ? psock_read_boxed_##m(s, &x) : psock_read_raw_##m(s, &x); \
        v = (uint64_t)x; break; }
    switch (t)
    {
        RR(0, int64_t, int64) RR(1, uint64_t, uint64) RR(2, int32_t, int32)
        RR(3, uint32_t, uint32) RR(4, int16_t, int16) RR(5, uint16_t, uint16)
        RR(6, int8_t, int8) RR(7, uint8_t, uint8) RR(8, bool, bool)
        case 9: st = psock_read_boxed_string(s, alloc, (char**)&p, &len); break;
        case 10: if (boxed) st = psock_read_boxed_data(s, alloc, &p, &len);
                 else { st = psock_read_raw_data(s, alloc, &p, n); len = n; }
                 break;
        default: vh_die("type");
    }
    narg = 0;
    if (!st && t <= 8) unbe(v, width[t]);
    else if (!st)
    {
        if (len > BIG) vh_diverged("length");
        narg = len; memcpy(arg, p, len);
        if (allocator_reclaim(alloc, p)) vh_lib("reclaim");
    }
    return st;
}
static void open_sock(char** av, int ac, int arm)
{
    int i = atoi(av[1]), k = atoi(av[2]), f = ac > 3 ? atoi(av[3]) : 0;
    if (i < 0 || i >= NS || S[i].open || f < 0 || f >= NF || !fib[f]) return;
    struct sock* s = &S[i];
    int sv[2] = { -1, -1 };
    memset(s, 0, offsetof(struct sock, exp)); s->nexp = 0; s->nconn = 0;
    s->path[0] = 0; s->kind = k; s->own = f;
    if (k == K_LISTEN)
    {
        struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
        snprintf(s->path, sizeof s->path, "%s/%d", dirname_, i);
        unlink(s->path);
        strcpy(a.sun_path, s->path);
        sv[0] = socket(AF_UNIX, SOCK_STREAM, 0);
        if (bind(sv[0], (void*)&a, sizeof a) || listen(sv[0], 200))
            vh_die("listen");
    }
    else if (socketpair(AF_UNIX, k == K_DGRAM || k == K_SDGRAM ? SOCK_DGRAM
                        : SOCK_STREAM, 0, sv))
        vh_die("socketpair");
    int sz = 4608;
    if (k != K_LISTEN) setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
    s->lib = sv[0]; s->peer = sv[1];
    psock *d = NULL, *w = NULL;
    int x = ac > 4 && ASYNC(k) ? atoi(av[4]) : 0;
    status st = x == 4 ? psock_create_from_buffer(&d, alloc, NULL, 0)
                       : psock_create_from_descriptor(&d, alloc, sv[0]);
    if (st) vh_lib("inner psock");
    openfail = ASYNC(k) ? x : 0; openhit = 0;
    vh_fired = 0; vh_allocs = 0; vh_fail_at = arm;
    if (ASYNC(k)) st = psock_create_wrap_async(&w, alloc, fib[f], d);
    if (!st && k == K_BR)
    {
        st = psock_br_create_from_psock(&s->br, alloc, w);
        if (st && resource_release(psock_resource_handle(w))) vh_lib("wrap");
        if (st) d = NULL;
    }
    vh_fail_at = 0; openfail = 0;
    ev_open("open"); ev_int("x", openhit || x == 4 ? x : 0); ev_int("i", i); ev_int("kind", k); ev_int("f", f);
    ev_status(st); ev_oom(); ev_close();
    if (st)
    {
        if (d && resource_release(psock_resource_handle(d))) vh_lib("child");
        if (sv[1] >= 0) close(sv[1]);
        if (x == 4) close(sv[0]);
        return;
    }
    s->ps = w ? w : d; s->in = d;
    s->rd = s->br ? psock_br_psock_adapter(s->br) : s->ps;
    s->open = 1;
}

static int step(int me)
{
    char line[4096]; char* av[82];
    if (pc >= nops) over();
    int arm = ops[pc].arm;
    snprintf(line, sizeof line, "%s", ops[pc++].line);
    int ac = split(line, av);
    const char* o = av[0];
    int i = ac > 1 ? atoi(av[1]) : 0;
    status st;
    narg = 0;
#define IS(x) (!strcmp(o, x))
    if (IS("env")) { do_env(); return 1; }
    if (IS("open")) { open_sock(av, ac, arm); return 1; }
    if (IS("y"))
    {
        call(me, "y", -1, 0, 0, 0, 0);
        if (me == 0) st = fiber_scheduler_run(sched);
        else
        {
            const rcpr_uuid* id; int e; void* p;
            st = fiber_scheduler_yield(sched, FIBER_SCHEDULER_YIELD_EVENT_RUN,
                                       NULL, &id, &e, &p);
        }
        leave(me); ret(me, "y", st); ev_close();
        return 1;
    }
    if (IS("x"))
    {
        if (me == 0) return 1;
        call(me, "x", -1, 0, 0, 0, 0); leave(me);
        fib[me] = NULL;     /* the scheduler's to dispose of */
        return 0;
    }
    if (IS("q"))
    {
        if (i < 0 || i >= NF || i == me || !fib[i] || !pend[i].waiting)
            return 1;
        call(me, "q", i, 0, 0, 0, 0);
        pend[i].waiting = 0;
        /* a buffered reader remembers that it was interrupted. */
        if (!strcmp(pend[i].k, "rl") && uh[S[pend[i].i].own] != 1)
            S[pend[i].i].rdead = 1;
        st = disciplined_fiber_scheduler_send_quiesce_request_to_fiber(
            sched, fib[i]);
        leave(me); ret(me, "q", st); ev_close();
        return 1;
    }
    if (IS("uh"))
    {   /* uh fiber handler */
        if (i < 0 || i >= NF || !fib[i]) return 1;
        int h = atoi(av[2]);
        if (fiber_unexpected_event_callback_add(
                fib[i], h ? handler : NULL, &hid[h])) vh_lib("handler");
        uh[i] = h;
        ev_open("uh"); ev_int("i", i); ev_int("h", h); ev_close();
        return 1;
    }
    if (bad_s(i)) return 1;
    struct sock* s = &S[i];
    if (IS("ce"))
    {   /* the next request for i's readiness fails. */
        ce = i + 1;
        return 1;
    }
    if (IS("cl"))
    {   /* let go of a socket nobody is using. */
        for (int f = 0; f < NF; ++f)
            if (pend[f].k && pend[f].i == i) return 1;
        int lib = s->lib; s->open = 0;
        st = STATUS_SUCCESS;
        if (s->br) st = resource_release(psock_br_resource_handle(s->br));
        int early = fcntl(lib, F_GETFD) < 0;
        if (!st) st = resource_release(psock_resource_handle(s->ps));
        ev_open("cl"); ev_int("f", me); ev_int("i", i); ev_status(st);
        ev_int("early", early); ev_int("open", fcntl(lib, F_GETFD) >= 0);
        ev_close();
        if (s->peer >= 0) close(s->peer);
        if (s->path[0]) unlink(s->path);
        return 1;
    }
    int stream = s->kind == K_STREAM || s->kind == K_BR;
    int dgram = s->kind == K_DGRAM || s->kind == K_SDGRAM;
    if (IS("fg"))
    {   /* fg socket w|i place method: with a forged table. */
        fg_allowed();
        const char* m = av[4];
        psock* which = av[2][0] == 'w' ? s->ps : s->in;
        if (which == s->in && (!strcmp(m, "rel") || !strcmp(m, "so"))) return 1;
        resource* h = psock_resource_handle(which);
        const resource_vtable* kept = h->vtable;
        uint8_t x[4] = { 9, 9, 9, 9 }; size_t n = sizeof x; uint32_t u = 7;
        int d = -2; st = 0; fcalls = 0;
        h->vtable = forged_table(atoi(av[3]));
        if (!strcmp(m, "r")) st = psock_read_raw_uint32(s->ps, &u);
        else if (!strcmp(m, "rr")) st = psock_read_raw(s->ps, x, &n);
        else if (!strcmp(m, "w")) st = psock_write_raw_uint32(s->ps, 5);
        else if (!strcmp(m, "so")) st = psock_setsockopt(s->ps, SOL_SOCKET, SO_RCVBUF, x, n);
        else if (!strcmp(m, "rel")) st = resource_release(h);
        else if (!strcmp(m, "ac")) st = psock_accept(s->ps, &d, NULL, NULL);
        else if (!strcmp(m, "sd")) st = psock_write_raw_descriptor(s->ps, pipes[3][0]);
        else if (!strcmp(m, "rd")) st = psock_read_raw_descriptor(s->ps, &d);
        else vh_die(m);
        h->vtable = kept;
        ev_open("fg"); ev_int("f", me); ev_int("i", i); ev_status(st);
        ev_int("fc", fcalls);
        ev_int("same", x[0] == 9 && x[3] == 9 && u == 7 && d < 0
               && fcntl(s->lib, F_GETFD) >= 0);
        ev_close();
        return 1;
    }
    if (IS("fcl"))
    {   /* fcl socket place: let go of a wrapper whose inside is forged. */
        fg_allowed();
        for (int f = 0; f < NF; ++f)
            if (pend[f].k && pend[f].i == i) return 1;
        if (!ASYNC(s->kind) || s->br) return 1;
        resource* h = psock_resource_handle(s->in);
        const resource_vtable* kept = h->vtable;
        int lib = s->lib; fcalls = 0; s->open = 0;
        h->vtable = forged_table(atoi(av[2]));
        st = resource_release(psock_resource_handle(s->ps));
        int early = fcntl(lib, F_GETFD) < 0;
        h->vtable = kept;
        status then = resource_release(h);
        ev_open("fcl"); ev_int("f", me); ev_int("i", i); ev_status(st);
        ev_int("fc", fcalls); ev_int("early", early); ev_int("then", (long)then);
        ev_int("open", fcntl(lib, F_GETFD) >= 0);
        ev_close();
        if (s->peer >= 0) close(s->peer);
        if (s->path[0]) unlink(s->path);
        return 1;
    }
    if (IS("wc"))
    {
        s->nws = s->iws = 0;
        for (int k = 2; k < ac; ++k) s->ws[s->nws++] = atol(av[k]);
        return 1;
    }
    int isread = IS("r") || IS("rr") || IS("rl") || IS("rblk") || IS("ac")
              || IS("rd");
    if (isread)
    {
        if (s->rdead) return 1;
        if (other(me, i, 'r'))
        {   /* only to see the second reader turned away. */
            int a = 0; ioctl(s->lib, FIONREAD, &a);
            if (s->kind != K_STREAM || a || s->closed || IS("rr")) return 1;
        }
    }
    else
    {
        if (s->wdead) return 1;
        if (other(me, i, 'w') && !(s->iws < s->nws && !s->ws[s->iws])
            && !(s->full && s->iws >= s->nws))
            return 1;
    }
    if (IS("r"))
    {
        int b = atoi(av[2]), t = atoi(av[3]); long n = ac > 4 ? atol(av[4]) : 0;
        if (!stream) return 1;
        call(me, "r", i, 'r', b, t, n);
        st = read_value(s->rd, b, t, n);
        leave(me); ret(me, "r", st); ev_bytes("v", arg, narg); ev_close();
        if (st && st != ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED) s->rdead = 1;
    }
    else if (IS("rr"))
    {
        size_t n = strtoul(av[2], NULL, 10), m = n;
        if (!stream || !n) return 1;
        uint8_t* d = vh_xmalloc(n);
        call(me, "rr", i, 'r', 0, 0, (long)n);
        st = psock_read_raw(s->rd, d, &m);
        leave(me); ret(me, "rr", st); ev_int("size", (long)m);
        ev_bytes("v", d, st || m > n ? 0 : m); ev_close();
        vh_xfree(d);
        if ((st && st != ERROR_PSOCK_READ_WOULD_BLOCK) || (!st && !m)) s->rdead = 1;
    }
    else if (IS("rl"))
    {
        size_t n = strtoul(av[2], NULL, 10), m = n;
        if (!s->br || n < 2) return 1;
        uint8_t* d = vh_xmalloc(n); memset(d, 0xC3, n);
        call(me, "rl", i, 'r', 0, 0, (long)n);
        st = psock_br_read_line(d, &m, s->br);
        leave(me); ret(me, "rl", st); ev_int("size", (long)m);
        ev_bytes("v", d, m > n ? 0 : !st ? m
                 : st == ERROR_PSOCK_BR_READ_LINE_TRUNCATED && m < n ? m + 1
                 : 0);
        ev_close();
        vh_xfree(d);
        if (st && st != ERROR_PSOCK_BR_READ_LINE_TRUNCATED) s->rdead = 1;
    }
    else if (IS("w"))
    {
        int b = atoi(av[2]), t = atoi(av[3]);
        if (!stream) return 1;
        value(av[4]);
        if (t <= 8 && narg != (size_t)width[t]) vh_die("width");
        call(me, "w", i, 'w', b, t, 0);
        st = write_value(s->ps, b, t);
        leave(me); ret(me, "w", st); ev_close();
        if (st && st != ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED) s->wdead = 1;
    }
    else if (IS("rblk") || IS("wblk"))
    {
        int rd = IS("rblk");
        if (ac < 3 && !ASYNC(s->kind)) return 1;
        if (rd && (s->kind == K_DGRAM || s->kind == K_LISTEN)) return 1;
        call(me, rd ? "rblk" : "wblk", i, rd ? 'r' : 'w', 0, 0, 0);
        pend[me].waiting = 1;
        st = rd ? psock_read_block(s->ps) : psock_write_block(s->ps);
        leave(me); ret(me, rd ? "rblk" : "wblk", st); ev_close();
    }
    else if (IS("ac"))
    {
        int d = -1; uint8_t id = 0;
        if (s->kind != K_LISTEN) return 1;
        call(me, "ac", i, 'r', 0, 0, 0);
        st = psock_accept(s->ps, &d, NULL, NULL);
        leave(me);
        if (!st && __real_read(d, &id, 1) != 1) id = 0;
        if (!st) close(d);
        ret(me, "ac", st); ev_int("id", id); ev_close();
    }
    else if (IS("sd"))
    {
        int k = 1 + atoi(av[2]) % 7;
        if (s->kind == K_SDGRAM && s->nconn >= 4) return 1;  /* could block */
        s->nconn += s->kind == K_SDGRAM;
        call(me, "sd", i, 'w', 0, 0, k);
        st = psock_write_raw_descriptor(s->ps, pipes[k][0]);
        leave(me); ret(me, "sd", st); ev_int("still", which_pipe(pipes[k][0]) == k);
        ev_close();
    }
    else if (IS("rd"))
    {
        int d = pipes[5][0], a = 0;    /* something that looks received */
        ioctl(s->lib, FIONREAD, &a);
        if (s->kind == K_SDGRAM && !a) return 1;    /* would block for ever */
        call(me, "rd", i, 'r', 0, 0, 0);
        st = psock_read_raw_descriptor(s->ps, &d);
        leave(me); ret(me, "rd", st);
        ev_int("id", st ? -1 : which_pipe(d)); ev_close();
        if (!st && d != pipes[5][0]) close(d);
    }
    else vh_die(o);
    return 1;
}
static __attribute__((noinline)) void loop(int me) { while (step(me)) ; }
static status entry(void* ctx)
{
    int me = (int)*(long*)ctx;
    ev_open("start"); ev_int("f", me); ev_close();
    loop(me);
    return STATUS_SUCCESS;
}

static void* home[5];
static void over(void) { __builtin_longjmp(home, 1); }

void vh_script_begin(void)
{
    signal(SIGPIPE, SIG_IGN);
    nops = pc = nenv = ec = 0; ce = openfail = 0;
    for (int i = 0; i < NS; ++i) S[i].open = 0;
    memset(fib, 0, sizeof fib); memset(pend, 0, sizeof pend);
    memset(held, 0, sizeof held); memset(uh, 0, sizeof uh);
}
static char text[1 << 20]; static size_t ntext;
void vh_op(int ac, char** av)
{
    if (nops + nenv == 0) ntext = 0;
    char* p = text + ntext;
    for (int i = 0; i < ac; ++i)
    {
        size_t n = strlen(av[i]);
        if (ntext + n + 2 > sizeof text) vh_die("script too long");
        memcpy(text + ntext, av[i], n); ntext += n;
        text[ntext++] = i + 1 < ac ? ' ' : 0;
    }
    if (nops + 1 >= MAXOPS || nenv + 1 >= MAXOPS) vh_die("script too long");
    struct op* o = av[0][0] == 'p' ? &env[nenv++] : &ops[nops++];
    o->line = p; o->arm = vh_arm_next; vh_arm_next = 0;
}
static int open_fds(void)
{
    int n = 0;
    for (int fd = 3; fd < 400; ++fd) n += fcntl(fd, F_GETFD) >= 0;
    return n;
}
static int fds0;
static void setup(void)
{
    fds0 = open_fds();
    if (malloc_allocator_create(&alloc)) vh_lib("allocator");
    sched = NULL;
    fiber_scheduler* sc = NULL;
    if (fiber_scheduler_create_with_disciplines(&sc, alloc)) vh_lib("sched");
    sched = sc;
    if (disciplined_fiber_scheduler_main_fiber_get(&fib[0], sched))
        vh_lib("main");
    strcpy(dirname_, "/tmp/verif-async-XXXXXX");
    if (!mkdtemp(dirname_)) vh_die("mkdtemp");
    for (int k = 0; k < 8; ++k) if (pipe(pipes[k])) vh_die("pipe");
    /* "open", then "fibs n". */
    while (pc < nops && (!strncmp(ops[pc].line, "open", 4)
                         || !strncmp(ops[pc].line, "uh", 2)))
        step(0);
    if (pc < nops && !strncmp(ops[pc].line, "fibs ", 5))
    {
        int n = atoi(ops[pc++].line + 5);
        if (n >= NF) vh_die("fibs");
        ev_open("fibs"); ev_int("n", n); ev_close();
        for (int k = 1; k <= n; ++k)
        {
            slot[k] = k;
            if (fiber_create(&fib[k], alloc, sched, STACK, &slot[k], entry)
             || fiber_scheduler_add(sched, fib[k]))
                vh_lib("fiber");
        }
    }
}
static void finish(void)
{
    int rc = 0, fds = 0;
    fiber_scheduler* sc = sched;
    sched = NULL;
    for (int i = 0; i < NS; ++i)
        if (S[i].open)
        {
            if (S[i].br) rc |= resource_release(psock_br_resource_handle(S[i].br));
            fds |= fcntl(S[i].lib, F_GETFD) < 0;    /* too early */
            rc |= resource_release(psock_resource_handle(S[i].ps));
            if (fcntl(S[i].lib, F_GETFD) >= 0) { fds |= 1; close(S[i].lib); }
            if (S[i].peer >= 0) close(S[i].peer);
            if (S[i].path[0]) unlink(S[i].path);
        }
    rc |= resource_release(fiber_scheduler_resource_handle(sc));
    if (resource_release(allocator_resource_handle(alloc))) vh_lib("alloc");
    for (int k = 0; k < 8; ++k) { close(pipes[k][0]); close(pipes[k][1]); }
    rmdir(dirname_);
    /* nothing else may be left open. */
    int n = open_fds() - fds0;
    ev_open("end"); ev_int("rc", rc); ev_int("fds", fds);
    ev_int("left", n); ev_int("live", vh_live); ev_close();
}
static __attribute__((noinline)) void body(void)
{
    if (__builtin_setjmp(home) == 0)
    {
        setup();
        loop(0);
    }
}
void vh_script_end(void)
{
    body();
    finish();
}
