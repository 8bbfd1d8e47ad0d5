/* Driver for the synchronous psocks of rcpr/psock.h: descriptor, buffer,
 * user-method and buffered-reader psocks, raw and boxed values, lines.
 *
 * The library's read and write calls on the two ends of a socketpair go
 * through wrappers here: reads are cut to the scripted segment sizes, a read
 * that would block for ever is reported instead ("hang"), writes are copied
 * into the event ("wire"). */
#include "vh.h"
#include "psock/psock_internal.h"
#include <errno.h>
#include <fcntl.h>
#include <rcpr/allocator.h>
#include <rcpr/psock.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <unistd.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_psock;
RCPR_IMPORT_resource;
#include "ualloc.h"
#include "forge.h"

enum { K_DESC, K_BR, K_BUF, K_BUFBR, K_USER, K_BRBR, K_USERALL,
       K_BRUSER, K_BRUSERALL };   /* readers over user methods */

static allocator *alloc, *ralloc;   /* of psocks; of what is read */
static int kind;
static psock *wr, *rd, *base;       /* writer, reader, what br wraps */
static psock_br *br, *br2;
static int sv[2];
static int closed;                  /* the peer has closed */
static int dead;                    /* a read failed: the rest is skipped */
static int hang;
static long segs[64]; static int nseg, iseg;
static long wcap;                   /* cap of the next write; 0: none */
static uint8_t* wire; static size_t nwire;
static int relcount, accepts, sends, recvs;
static int pieces;                  /* user reads may be short: raw data */

/* the n-th read or write from now fails.  e: 0 the call fails, 1 it would
 * block, 2 it takes or gives nothing (writes). */
typedef struct { long n; int e; int fired; } fault;
static fault rf, wf;
static int faulty(fault* f)
{
    if (f->n <= 0 || --f->n) return -1;
    f->fired = 1 + f->e;
    return f->e;
}
#define UERR ((status)0x7f000009)

#define BIG (1 << 20)
static uint8_t fifo[BIG]; static size_t fh, ft;     /* user-method stream */
static uint8_t inbuf[BIG]; static size_t nin;       /* buffer input */

static long seg(void)
{
    if (!nseg) return 0;
    return segs[iseg++ % nseg];
}

ssize_t __real_read(int fd, void* p, size_t n);
ssize_t __real_write(int fd, const void* p, size_t n);
static int mine;
ssize_t __wrap_read(int fd, void* p, size_t n)
{
    if (!mine || fd != sv[1]) return __real_read(fd, p, n);
    int avail = 0, e = faulty(&rf);
    if (e >= 0) { errno = e ? EAGAIN : EIO; return -1; }
    ioctl(fd, FIONREAD, &avail);
    if (n && !avail && !closed)
    {
        hang = 1; errno = EIO; return -1;
    }
    long s = seg();
    if (s && (size_t)s < n) n = (size_t)s;
    return __real_read(fd, p, n);
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
    if (!mine || (fd != sv[0] && fd != sv[1])) return __real_write(fd, p, n);
    int e = faulty(&wf);
    if (e == 2) return 0;
    if (e >= 0) { errno = e ? EAGAIN : EPIPE; return -1; }
    if (wcap && n > (size_t)wcap) { n = (size_t)wcap; wcap = 0; }
    ssize_t r = __real_write(fd, p, n);
    if (r > 0) { memcpy(wire + nwire, p, (size_t)r); nwire += (size_t)r; }
    return r;
}

/* ---- user methods ---- */
static char uctx[4];
static status u_read(psock* s, void* c, void* data, size_t* size, bool block)
{
    if (c != uctx) vh_diverged("user context");
    size_t n = *size;
    int e = mine ? faulty(&rf) : -1;
    if (e >= 0) return e ? ERROR_PSOCK_READ_WOULD_BLOCK : UERR;
    if (n && fh == ft && !closed) { hang = 1; return ERROR_PSOCK_READ_GENERAL; }
    if (!block || pieces) { long k = seg(); if (k && (size_t)k < n) n = (size_t)k; }
    if (n > ft - fh)
    {
        if (block && !closed && !pieces) { hang = 1; return ERROR_PSOCK_READ_GENERAL; }
        n = ft - fh;
    }
    memcpy(data, fifo + fh, n); fh += n; *size = n;
    return STATUS_SUCCESS;
}
static status u_write(psock* s, void* c, const void* data, size_t* size)
{
    if (c != uctx) vh_diverged("user context");
    if (*size > 4u * BIG)
        return STATUS_SUCCESS;      /* pretend: a test of huge sizes */
    size_t n = *size;
    int e = mine ? faulty(&wf) : -1;
    if (e == 2) { *size = 0; return STATUS_SUCCESS; }
    if (e >= 0) return e ? ERROR_PSOCK_WRITE_WOULD_BLOCK : UERR;
    if (wcap && n > (size_t)wcap) { n = (size_t)wcap; wcap = 0; }
    memcpy(wire + nwire, data, n); nwire += n;
    memcpy(fifo + ft, data, n); ft += n; *size = n;
    return STATUS_SUCCESS;
}
static status u_accept(psock* s, void* c, int* d, struct sockaddr* a,
                       socklen_t* l)
{ accepts += c == uctx; *d = 77; return STATUS_SUCCESS; }
static status u_sendmsg(psock* s, void* c, const struct msghdr* m, int f)
{ sends += c == uctx && f == 5; return STATUS_SUCCESS; }
static status u_recvmsg(psock* s, void* c, struct msghdr* m, size_t* n, int f)
{ recvs += c == uctx && f == 6; *n = 9; return STATUS_SUCCESS; }
static status u_release(psock* s, void* c)
{ relcount += c == uctx; return STATUS_SUCCESS; }
RCPR_VTABLE RCPR_SYM(psock_vtable) u_min = {
    .read_fn = &u_read, .write_fn = &u_write };
RCPR_VTABLE RCPR_SYM(psock_vtable) u_all = {
    .read_fn = &u_read, .write_fn = &u_write, .accept_fn = &u_accept,
    .sendmsg_fn = &u_sendmsg, .recvmsg_fn = &u_recvmsg,
    .release_fn = &u_release };

/* ---- forged method tables ---- */
static struct { resource* r; const resource_vtable* kept; } fgd[8];
static int nfgd;
static int is_forged(void* p)
{
    for (int i = 0; i < nfgd; ++i) if (fgd[i].r == (resource*)p) return 1;
    return 0;
}
static void mend(void)
{
    for (int i = 0; i < nfgd; ++i) fgd[i].r->vtable = fgd[i].kept;
    nfgd = 0;
}
static resource* forgeable(int c)
{
    psock* s = c == 'w' ? wr : c == 'r' ? rd : c == 'b' ? base
             : br && br2 ? psock_br_psock_adapter(br) : NULL;
    return s ? psock_resource_handle(s) : NULL;
}
/* 1: the object itself is forged; 2: one that it works over. */
static int fg_level(psock* s)
{
    if (s && is_forged(psock_resource_handle(s))) return 1;
    if (s && s == rd && nfgd)
        for (const char* c = "bm"; *c; ++c)
            if (forgeable(*c) && is_forged(forgeable(*c))) return 2;
    return 0;
}
#define BAD_TABLE ERROR_GENERAL_BAD_VTABLE
static int fgl;
static void fg_event(psock* s)
{
    if (!FG_ON) return;
    ev_int("fg", fgl = fg_level(s)); ev_int("fc", fcalls); fcalls = 0;
}
/* refused, and nothing was lost. */
#define SPARED (FG_ON && fgl == 1 && st == BAD_TABLE)
void vh_script_begin(void)
{
    if (!wire) wire = vh_xmalloc(4 * BIG);
    kind = -1; wr = rd = base = NULL; br = br2 = NULL; sv[0] = sv[1] = -1;
    dead = closed = hang = nseg = iseg = 0; wcap = 0; nwire = 0; fh = ft = 0; nin = 0;
    relcount = accepts = sends = recvs = 0; mine = 0; pieces = 0;
    rf = wf = (fault) { 0 };
    nfgd = fcalls = fgl = 0;
    ua_begin(); alloc = ua_get(0); ralloc = ua_get(1);
}

/* ---- arguments ---- */
static uint8_t arg[BIG]; static size_t narg;
static int hexd(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void value(const char* a, int str)
{
    narg = 0;
    if (*a == '-') return;
    if (*a == '@')
    {
        narg = strtoul(a + 1, NULL, 10);
        long b = atol(strchr(a, ':') + 1);
        for (size_t i = 0; i < narg; ++i)
            arg[i] = str ? 1 + (b + i * 7) % 255 : (b + i * 7) % 256;
        return;
    }
    for (; a[0] && a[1]; a += 2) arg[narg++] = hexd(a[0]) * 16 + hexd(a[1]);
}
static const int width[] = { 8, 8, 4, 4, 2, 2, 1, 1, 1 };
static uint64_t be(void)
{
    uint64_t v = 0;
    for (size_t i = 0; i < narg; ++i) v = v << 8 | arg[i];
    return v;
}
static void unbe(uint64_t v, int n)
{
    narg = n;
    for (int i = n - 1; i >= 0; --i) { arg[i] = (uint8_t)v; v >>= 8; }
}
/* what the platform reported while the library was at work, as the status it
 * stands for; "" if nothing. */
static void logfault(const char* key, fault* f, status general, status block,
                     status none)
{
    status st = f->fired == 1 ? (sv[0] < 0 && sv[1] < 0 ? UERR : general)
              : f->fired == 2 ? block : none;
    if (f->fired) ev_statusk(key, st); else ev_str(key, "");
    f->fired = 0; f->n = 0;
}
#define OPEN if (kind < 0) vh_diverged("no psock")

static status dowrite(psock* s, int boxed, int t)
{
    status st = -1;
    uint64_t v = t <= 8 ? be() : 0;
    uint8_t* d = NULL;
    if (t >= 9)
    {   /* exactly sized, so that reading past it is seen. */
        d = vh_xmalloc(narg + (t == 9));
        memcpy(d, arg, narg);
        if (t == 9) d[narg] = 0;
    }
    nwire = 0; mine = 1;
#define W(i, T, n) case i: if (boxed) LIB(st = psock_write_boxed_##n(s, (T)v)); \
                   else LIB(st = psock_write_raw_##n(s, (T)v)); break;
    switch (t)
    {
        W(0, int64_t, int64) W(1, uint64_t, uint64) W(2, int32_t, int32)
        W(3, uint32_t, uint32) W(4, int16_t, int16) W(5, uint16_t, uint16)
        W(6, int8_t, int8) W(7, uint8_t, uint8)
        case 8: if (boxed) LIB(st = psock_write_boxed_bool(s, v != 0));
                else LIB(st = psock_write_raw_bool(s, v != 0)); break;
        case 9: LIB(st = psock_write_boxed_string(s, (char*)d)); break;
        case 10: if (boxed) LIB(st = psock_write_boxed_data(s, d, narg));
                 else LIB(st = psock_write_raw_data(s, d, narg)); break;
        default: vh_die("type");
    }
    mine = 0; wcap = 0;
    vh_xfree(d);
    return st;
}

static int same;        /* outputs unchanged */
static status doread(psock* s, int boxed, int t, size_t n)
{
    status st = -1;
    uint64_t can = 0x1122334455667788ull, v = can;
    void* p = &can; size_t len = 4242;
    hang = 0; mine = 1;
#define R(i, T, m) case i: { T x = (T)can; \
        if (boxed) LIB(st = psock_read_boxed_##m(s, &x)); \
        else LIB(st = psock_read_raw_##m(s, &x)); \
        same = x == (T)can; v = (uint64_t)x; break; }
    switch (t)
    {
        R(0, int64_t, int64) R(1, uint64_t, uint64) R(2, int32_t, int32)
        R(3, uint32_t, uint32) R(4, int16_t, int16) R(5, uint16_t, uint16)
        R(6, int8_t, int8) R(7, uint8_t, uint8)
        case 8:
        {   /* the output must be written as a proper bool. */
            bool x = n & 1; unsigned char raw;
            if (boxed) LIB(st = psock_read_boxed_bool(s, &x));
            else LIB(st = psock_read_raw_bool(s, &x));
            memcpy(&raw, &x, 1);
            same = raw == (n & 1); v = raw; break;
        }
        case 9: LIB(st = psock_read_boxed_string(s, ralloc, (char**)&p, &len));
                same = p == &can && len == 4242; break;
        case 10: if (boxed) LIB(st = psock_read_boxed_data(s, ralloc, &p, &len));
                 else { pieces = 1;
                        LIB(st = psock_read_raw_data(s, ralloc, &p, n));
                        pieces = 0;
                        len = st ? 4242 : n; }
                 same = p == &can && len == 4242; break;
        default: vh_die("type");
    }
    mine = 0;
    if (!st)
    {
        if (t <= 8) unbe(v, width[t]);
        else
        {
            if (len > BIG) vh_diverged("length");
            narg = len; memcpy(arg, p, len);
            if (t == 9 && ((char*)p)[len]) vh_diverged("not terminated");
            if (allocator_reclaim(ralloc, p)) vh_lib("reclaim");
        }
    }
    return st;
}

static void logout(const char* k)
{
    void* b = NULL; size_t n = 0;
    if (kind != K_BUF) return;
    if (psock_from_buffer_get_output_buffer(wr, ralloc, &b, &n)) vh_diverged("out");
    ev_bytes(k, b, n);
    if (allocator_reclaim(ralloc, b)) vh_lib("reclaim");
}

void vh_op(int ac, char** av)
{
    const char* op = av[0];
    status st = 0;
    if (dead) return;
    if (!strcmp(op, "open"))
    {
        int k = atoi(av[1]);
        if (kind >= 0) vh_diverged("open twice");
        int arm = vh_arm_next; vh_arm_next = 0;
        kind = k;
        vh_fired = 0; vh_allocs = 0; vh_fail_at = arm;
        if (k == K_DESC || k == K_BR || k == K_BRBR)
        {
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) vh_die("socketpair");
            st = psock_create_from_descriptor(&wr, alloc, sv[0]);
            if (!st) st = psock_create_from_descriptor(&base, alloc, sv[1]);
        }
        else if (k == K_BUF)
            st = psock_create_from_buffer(&wr, alloc, NULL, 0);
        else if (k == K_BUFBR)
        {
            narg = 0;
            value(av[2], 0);
            memcpy(inbuf, arg, nin = narg);
            uint8_t* d = vh_xmalloc(nin); memcpy(d, inbuf, nin);
            st = psock_create_from_buffer(&base, alloc, (char*)d, nin);
            memset(d, 0xEE, nin); vh_xfree(d);   /* the psock has a copy */
            closed = 1;
        }
        else
        {
            st = psock_create_from_user_methods(
                &base, alloc, uctx, k == K_USERALL || k == K_BRUSERALL ? &u_all : &u_min);
            wr = base;
        }
        rd = base;
        if (!st && (k == K_BR || k == K_BRBR || k == K_BUFBR
                    || k >= K_BRUSER))
        {
            st = psock_br_create_from_psock(&br, alloc, base);
            if (!st) rd = psock_br_psock_adapter(br);
            if (!st && k == K_BRBR)
            {
                st = psock_br_create_from_psock(&br2, alloc, rd);
                if (!st) rd = psock_br_psock_adapter(br2);
            }
        }
        vh_fail_at = 0;
        ev_open(op); ev_int("kind", k); ev_status(st); ev_oom();
        if (k == K_BUFBR) ev_bytes("v", inbuf, nin);
        ev_close();
        if (st) kind = -2;
    }
    else if (!strcmp(op, "seg"))
    {
        nseg = iseg = 0;
        for (int i = 1; i < ac && nseg < 64; ++i) segs[nseg++] = atol(av[i]);
    }
    else if (!strcmp(op, "wseg")) wcap = atol(av[1]);
    else if (!strcmp(op, "werr") || !strcmp(op, "rerr"))
        *(op[0] == 'w' ? &wf : &rf) = (fault) { atol(av[1]), atoi(av[2]), 0 };
    else if (!strcmp(op, "w") || !strcmp(op, "x"))
    {
        OPEN;
        int boxed = atoi(av[1]), t = atoi(av[2]);
        psock* s = op[0] == 'w' ? wr : rd;
        if (!s || (op[0] == 'w' && closed)) vh_diverged("no writer");
        value(av[3], t == 9);
        if (t <= 8 && narg != (size_t)width[t]) vh_die("width");
        int cut = wcap != 0;
        ev_open(op); ev_int("b", boxed); ev_int("t", t);
        ev_bytes("v", arg, narg);
        st = dowrite(s, boxed, t);
        ev_int("cut", cut);
        logfault("we", &wf, ERROR_PSOCK_WRITE_GENERAL,
                 ERROR_PSOCK_WRITE_WOULD_BLOCK, ERROR_PSOCK_WRITE_INVALID_SIZE);
        ev_status(st); ev_oom(); fg_event(s);
        if (kind == K_BUF) logout("out"); else ev_bytes("wire", wire, nwire);
        if (op[0] == 'x' && sv[0] >= 0 && nwire)
        {   /* the peer drains what was sent its way. */
            static uint8_t dr[4 * BIG]; size_t k = 0;
            while (k < nwire)
            {
                ssize_t r = __real_read(sv[0], dr + k, nwire - k);
                if (r <= 0) break;
                k += r;
            }
            ev_int("peer", k == nwire && !memcmp(dr, wire, k));
        }
        ev_close();
    }
    else if (!strcmp(op, "wbig"))
    {   /* boxed data whose size does not fit: nothing may claim success. */
        OPEN;
        if (kind != K_USER) vh_diverged("wbig");
        nwire = 0;
        LIB(st = psock_write_boxed_data(wr, arg, 0x100000000ull + 3));
        ev_open(op); ev_status(st); ev_close();
    }
    else if (!strcmp(op, "f"))
    {
        OPEN;
        if (!wr || closed || kind == K_BUF) vh_diverged("feed");
        value(av[1], 0);
        ev_open(op); ev_bytes("v", arg, narg); ev_close();
        if (sv[0] >= 0)
        {
            if (__real_write(sv[0], arg, narg) != (ssize_t)narg) vh_die("feed");
        }
        else { memcpy(fifo + ft, arg, narg); ft += narg; }
    }
    else if (!strcmp(op, "c"))
    {
        OPEN;
        if (closed || kind == K_BUF) vh_diverged("close");
        if (sv[0] >= 0)
        {
            st = resource_release(psock_resource_handle(wr)); wr = NULL;
            ev_open(op); ev_status(st);
            ev_int("shut", fcntl(sv[0], F_GETFD) < 0); ev_close();
            sv[0] = -1;
        }
        else { ev_open(op); ev_status(0); ev_int("shut", 1); ev_close(); wr = NULL; }
        closed = 1;
    }
    else if (!strcmp(op, "flip"))
    {   /* what was written becomes the input of a new buffer psock. */
        OPEN;
        if (kind != K_BUF) vh_diverged("flip");
        void* b = NULL; size_t n = 0;
        b = &n; n = 4242;
        LIB(st = psock_from_buffer_get_output_buffer(wr, ralloc, &b, &n));
        ev_open("flip"); ev_status(st); ev_oom();
        ev_int("same", st && b == &n && n == 4242);
        if (!st)
        {
            ev_bytes("v", b, n);
            if (resource_release(psock_resource_handle(wr))) vh_lib("release");
            wr = NULL;
            if (psock_create_from_buffer(&base, alloc, b, n)) vh_lib("from buffer");
            memset(b, 0xEE, n);
            if (allocator_reclaim(ralloc, b)) vh_lib("reclaim");
            rd = base; kind = K_BUFBR; closed = 1;
            if (ac > 1 && atoi(av[1]))
            {
                if (psock_br_create_from_psock(&br, alloc, base)) vh_lib("br");
                rd = psock_br_psock_adapter(br);
            }
        }
        ev_close();
    }
    else if (!strcmp(op, "r"))
    {
        OPEN;
        if (!rd) vh_diverged("no reader");
        int boxed = atoi(av[1]), t = atoi(av[2]);
        size_t n = ac > 3 ? strtoul(av[3], NULL, 10) : 0;
        st = doread(rd, boxed, t, n);
        ev_open(op); ev_int("b", boxed); ev_int("t", t); ev_int("n", (long)n);
        ev_status(st); ev_oom(); ev_int("hang", hang);
        logfault("re", &rf, ERROR_PSOCK_READ_GENERAL,
                 ERROR_PSOCK_READ_WOULD_BLOCK, 0);
        if (!st) ev_bytes("v", arg, narg); else ev_int("same", same);
        fg_event(rd);
        ev_close();
        if (st && !SPARED) dead = 1;
    }
    else if (!strcmp(op, "rr"))
    {
        OPEN;
        if (!rd) vh_diverged("no reader");
        size_t n = strtoul(av[1], NULL, 10), m = n;
        uint8_t* d = vh_xmalloc(n);
        memset(d, 0xC3, n ? n : 1);
        hang = 0; mine = 1;
        LIB(st = psock_read_raw(rd, d, &m));
        mine = 0;
        int wb = rf.fired == 2;
        ev_open(op); ev_int("n", (long)n); ev_status(st); ev_int("hang", hang);
        logfault("re", &rf, ERROR_PSOCK_READ_GENERAL,
                 ERROR_PSOCK_READ_WOULD_BLOCK, 0);
        if (!st && m > n) vh_diverged("size grew");
        if (!st) ev_bytes("v", d, m); else ev_int("same", m == n);
        fg_event(rd);
        ev_close();
        if (FG_ON && fgl && st == BAD_TABLE) { }
        else if ((st && !(wb && st == ERROR_PSOCK_READ_WOULD_BLOCK)) || hang) dead = 1;
        vh_xfree(d);
    }
    else if (!strcmp(op, "rl"))
    {
        OPEN;
        psock_br* b = br2 ? br2 : br;
        if (!b) vh_diverged("no reader");
        size_t n = strtoul(av[1], NULL, 10), m = n;
        uint8_t* d = vh_xmalloc(n);
        memset(d, 0xC3, n ? n : 1);
        hang = 0; mine = 1;
        LIB(st = psock_br_read_line(d, &m, b));
        mine = 0;
        ev_open(op); ev_int("n", (long)n); ev_status(st); ev_int("hang", hang);
        ev_int("size", (long)m); fg_event(rd);
        if (rf.fired == 1 || fgl) dead = 1;
        logfault("re", &rf, ERROR_PSOCK_READ_GENERAL,
                 ERROR_PSOCK_READ_WOULD_BLOCK, 0);
        if (kind == K_BR)
        {   /* what the reader has not taken from the descriptor yet. */
            int left = 0;
            ioctl(sv[1], FIONREAD, &left);
            ev_int("left", left);
        }
        if (!st && m <= n) ev_bytes("v", d, m);
        else if (st == ERROR_PSOCK_BR_READ_LINE_TRUNCATED && m < n)
            ev_bytes("v", d, m + 1);
        else ev_bytes("v", d, 0);
        ev_close();
        if (hang || (st && st != ERROR_PSOCK_BR_READ_LINE_TRUNCATED
                        && st != ERROR_PSOCK_BR_READ_LINE_BUFFER_SIZE_TOO_SMALL))
            dead = 1;
        vh_xfree(d);
    }
    else if (!strcmp(op, "no"))
    {   /* what this type of psock cannot do: nothing happens. */
        OPEN;
        psock* s = atoi(av[2]) && base ? base : rd ? rd : wr;
        void* b = &st; size_t n = 4242; int d = 4242;
        nwire = 0; mine = 1;
        const char* m = av[1];
        if (!strcmp(m, "out"))
            LIB(st = psock_from_buffer_get_output_buffer(s, ralloc, &b, &n));
        else if (!strcmp(m, "rblk")) LIB(st = psock_read_block(s));
        else if (!strcmp(m, "wblk")) LIB(st = psock_write_block(s));
        else if (!strcmp(m, "sdesc")) LIB(st = psock_write_raw_descriptor(s, 0));
        else if (!strcmp(m, "rdesc")) LIB(st = psock_read_raw_descriptor(s, &d));
        else if (!strcmp(m, "w")) LIB(st = psock_write_raw_uint8(s, 7));
        else vh_die(m);
        mine = 0;
        ev_open(op); ev_str("m", m); ev_status(st); fg_event(s); ev_int("n", (long)nwire);
        ev_int("same", b == &st && n == 4242 && d == 4242); ev_close();
    }
    else if (!strcmp(op, "um"))
    {   /* optional methods. */
        OPEN;
        struct msghdr m; memset(&m, 0, sizeof m);
        int d = 4, before = accepts + sends + recvs; size_t n = 4;
        if (!rd) vh_diverged("no psock");
        const RCPR_SYM(psock_vtable)* vt;
        st = resource_vtable_read((const RCPR_SYM(resource_vtable)**)&vt,
                                  psock_resource_handle(rd));
        if (st && !FG_ON) vh_die("vtable");
        if (st && (av[1][0] == 's' || av[1][0] == 'r')) { }
        else if (av[1][0] == 'a') LIB(st = psock_accept(rd, &d, NULL, NULL));
        else if (av[1][0] == 's') LIB(st = vt->sendmsg_fn(rd, rd->context, &m, 5));
        else if (av[1][0] == 'r')
            LIB(st = vt->recvmsg_fn(rd, rd->context, &m, &n, 6));
        else LIB(st = psock_setsockopt(rd, 1, 2, &d, sizeof d));
        ev_open(op); ev_str("m", av[1]); ev_status(st); fg_event(rd);
        ev_int("calls", accepts + sends + recvs - before);
        ev_int("d", d); ev_int("n", (long)n); ev_close();
    }
    else if (!strcmp(op, "forge"))      /* forge w|r|b|m PLACE */
    {
        OPEN;
        fg_allowed();
        resource* r = forgeable(av[1][0]);
        if (!r) vh_diverged("nothing to forge");
        if (is_forged(r)) return;
        fgd[nfgd].r = r; fgd[nfgd++].kept = r->vtable;
        r->vtable = forged_table(atoi(av[2]));
    }
    else if (!strcmp(op, "mend")) mend();
    else if (!strcmp(op, "frel"))       /* what is forged cannot be released */
    {
        for (int i = 0; i < nfgd; ++i)
        {
            int before = relcount;
            LIB(st = resource_release(fgd[i].r));
            ev_open(op); ev_status(st); ev_int("fc", fcalls); fcalls = 0;
            ev_int("n", relcount - before); ev_close();
        }
    }
    else vh_die(op);
}

void vh_script_end(void)
{
    mend();
    int bad = 0, rc = 0;
    if (br2) rc |= resource_release(psock_br_resource_handle(br2));
    if (br) rc |= resource_release(psock_br_resource_handle(br));
    if (wr && wr != base) rc |= resource_release(psock_resource_handle(wr));
    int pre = sv[1] >= 0 && base ? fcntl(sv[1], F_GETFD) < 0 : 0;
    if (base) rc |= resource_release(psock_resource_handle(base));
    for (int i = 0; i < 2; ++i)
        if (sv[i] >= 0 && fcntl(sv[i], F_GETFD) >= 0)
        {
            /* a psock that could not be created leaves its descriptor. */
            if (kind >= 0) bad = 1;
            close(sv[i]);
        }
    ev_open("end"); ev_int("rc", rc); ev_int("fds", bad); ev_int("early", pre);
    ev_int("urel", relcount); ev_int("live", vh_live);
    ev_int("foreign", foreign); ev_close();
}
