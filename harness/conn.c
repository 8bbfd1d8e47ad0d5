/* Driver for making, accepting and letting go of psocks (rcpr/psock.h):
 * listeners, connections by host name, socket pairs, pipes, buffers, user
 * methods, and buffered readers over any of them.
 *
 * Real loopback sockets.  The system calls the library makes can be told to
 * fail; the resolver knows a few names of its own; an IPv6 destination is
 * reached over IPv4 (the sandbox may have no IPv6). */
#include "vh.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <rcpr/allocator.h>
#include <rcpr/psock.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_psock;
RCPR_IMPORT_resource;
#include "ualloc.h"

#define NS 40
#define NE 512
#define NP 8
#define USTAT ((status)0x7f000003)

static struct slot
{
    const char* k;          /* NULL: empty */
    psock* ps; psock_br* br;
    int fd, e, w;
    int m, x, urel;
    int port, pend, nb;
} O[NS];
static struct { int cport, lport; } ep[NE]; static int nep;
static int pipes[NP][2], closedport_fd, closedport;

/* ---- system calls ---- */
enum { F_SOCKET = 1, F_BIND = 2, F_LISTEN = 4, F_CLOSE = 8, F_CONNECT = 16,
       F_ACCEPT = 32, F_AGAIN = 64 };
static int lib, inject;
static int fam6[1024];
static int reached, reached_port, lastsock, conn_fam, conn_right, want_port;
static struct in_addr want4[2]; static int nwant4;

int __real_socket(int, int, int);
int __real_bind(int, const struct sockaddr*, socklen_t);
int __real_listen(int, int);
int __real_connect(int, const struct sockaddr*, socklen_t);
int __real_accept(int, struct sockaddr*, socklen_t*);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_recvmsg(int, struct msghdr*, int);
struct hostent* __real_gethostbyname2(const char*, int);

#define INJ(f, err) if (lib && (inject & (f))) { errno = err; return -1; }
int __wrap_socket(int d, int t, int p)
{
    INJ(F_SOCKET, EMFILE)
    int v6 = lib && d == AF_INET6;
    int r = __real_socket(v6 ? AF_INET : d, t, p);
    if (r >= 0 && r < 1024) fam6[r] = v6;
    if (lib) lastsock = r;
    return r;
}
int __wrap_bind(int s, const struct sockaddr* a, socklen_t n)
{ INJ(F_BIND, EACCES) return __real_bind(s, a, n); }
int __wrap_listen(int s, int n)
{ INJ(F_LISTEN, EADDRINUSE) return __real_listen(s, n); }
int __wrap_connect(int s, const struct sockaddr* a, socklen_t n)
{
    if (!lib) return __real_connect(s, a, n);
    const struct sockaddr_in* i4 = (const void*)a;
    const struct sockaddr_in6* i6 = (const void*)a;
    struct sockaddr_in to; memset(&to, 0, sizeof to);
    to.sin_family = AF_INET;
    to.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (a->sa_family == AF_INET)
    {
        conn_fam = 4; conn_right = 0;
        for (int i = 0; i < nwant4; ++i)
            if (want4[i].s_addr == i4->sin_addr.s_addr) conn_right = 1;
        to.sin_port = i4->sin_port;
        conn_right &= n == sizeof *i4 && !fam6[s];
    }
    else
    {
        conn_fam = 6;
        conn_right = !memcmp(&i6->sin6_addr, &in6addr_loopback, 16)
            && n == sizeof *i6 && fam6[s];
        to.sin_port = i6->sin6_port;
    }
    conn_right &= ntohs(to.sin_port) == want_port;
    INJ(F_CONNECT, ETIMEDOUT)
    if (!conn_right) { errno = ENETUNREACH; return -1; }
    int r = __real_connect(s, (void*)&to, sizeof to);
    struct sockaddr_in me; socklen_t nme = sizeof me;
    if (!r && !getsockname(s, (void*)&me, &nme))
    { reached = 1; reached_port = ntohs(me.sin_port); }
    return r;
}
int __wrap_accept(int s, struct sockaddr* a, socklen_t* n)
{ INJ(F_ACCEPT, ECONNABORTED) INJ(F_AGAIN, EAGAIN)
  return __real_accept(s, a, n); }
int __wrap_close(int s)
{
    int r = __real_close(s);
    INJ(F_CLOSE, EIO)
    return r;
}
static int ready(int fd)
{
    struct pollfd p = { fd, POLLIN, 0 };
    return poll(&p, 1, 3000) > 0;
}
static int nonblock(int fd) { return fcntl(fd, F_GETFL) & O_NONBLOCK; }
ssize_t __wrap_read(int fd, void* p, size_t n)
{
    if (lib && n && !nonblock(fd) && !ready(fd)) { errno = EIO; return -1; }
    return __real_read(fd, p, n);
}
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int f)
{
    if (lib && !nonblock(fd) && !ready(fd)) { errno = EIO; return -1; }
    return __real_recvmsg(fd, m, f);
}
static const char* hosts[] = { "127.0.0.1", "localhost", "v6.test",
                               "none.test", "two.test" };
struct hostent* __wrap_gethostbyname2(const char* h, int af)
{
    static struct hostent e; static struct in_addr a4[2];
    static char* l[3]; static struct in6_addr a6;
    if (!strstr(h, ".test") && strcmp(h, "localhost")) return __real_gethostbyname2(h, af);
    memset(&e, 0, sizeof e);
    e.h_name = (char*)h; e.h_addrtype = af; e.h_addr_list = l;
    int two = !strcmp(h, "two.test");
    if ((two || *h == 'l') && af == AF_INET)
    {
        a4[0] = want4[0]; a4[1] = want4[1];
        l[0] = (char*)&a4[0]; l[1] = two ? (char*)&a4[1] : NULL; l[2] = NULL;
        e.h_length = 4;
        return &e;
    }
    if (!strcmp(h, "v6.test") && af == AF_INET6)
    {
        a6 = in6addr_loopback;
        l[0] = (char*)&a6; l[1] = NULL; e.h_length = 16;
        return &e;
    }
    h_errno = HOST_NOT_FOUND;
    return NULL;
}

static int open_fds(void)
{
    int n = 0;
    for (int fd = 3; fd < 512; ++fd) n += fcntl(fd, F_GETFD) >= 0;
    return n;
}
static int f0, fbase;
#define CALL(stmt) do { f0 = open_fds(); lib = 1; ua_refused = 0; LIB(stmt); \
                        lib = 0; inject = 0; ua_refuse = 0; } while (0)
static void ev_fds(void) { ev_int("fds", open_fds() - f0); }

/* ---- user methods ---- */
static status u_read(psock* s, void* c, void* d, size_t* n, bool b)
{ (void)s; (void)c; (void)d; (void)b; *n = 0; return ERROR_PSOCK_READ_EOF; }
static status u_write(psock* s, void* c, const void* d, size_t* n)
{ (void)s; (void)c; (void)d; (void)n; return STATUS_SUCCESS; }
static struct slot* uof(void* c)
{
    for (int i = 0; i < NS; ++i) if (c == &O[i]) return &O[i];
    vh_diverged("user context");
}
static int* acc_desc; static struct sockaddr* acc_addr; static socklen_t* acc_len;
static status u_accept(psock* s, void* c, int* d, struct sockaddr* a,
                       socklen_t* n)
{
    struct slot* o = uof(c);
    if (s != o->ps || d != acc_desc || a != acc_addr || n != acc_len)
        vh_diverged("accept arguments");
    if (o->x) return USTAT;
    *d = fcntl(pipes[3][0], F_DUPFD, 3);
    return STATUS_SUCCESS;
}
static status u_release(psock* s, void* c)
{
    struct slot* o = uof(c);
    if (s != o->ps) vh_diverged("release argument");
    o->urel++;
    return o->x ? USTAT : STATUS_SUCCESS;
}
static psock_vtable ut[16];
static void user_tables(void)
{
    for (int m = 0; m < 16; ++m)
    {
        memset(&ut[m], 0, sizeof ut[m]);
        ut[m].read_fn = &u_read; ut[m].write_fn = &u_write;
        if (m & 1) ut[m].accept_fn = &u_accept;
        if (m & 8) ut[m].release_fn = &u_release;
    }
}

/* ---- helpers ---- */
static int hexd(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static uint8_t arg[1 << 16]; static size_t narg;
static void value(const char* a)
{
    narg = 0;
    if (!a || *a == '-') return;
    for (; a[0] && a[1] && narg < sizeof arg; a += 2)
        arg[narg++] = hexd(a[0]) * 16 + hexd(a[1]);
}
static int which_pipe(int fd)
{
    struct stat a, b;
    if (fstat(fd, &a)) return -1;
    for (int k = 0; k < NP; ++k)
        if (!fstat(pipes[k][0], &b) && a.st_ino == b.st_ino
            && a.st_dev == b.st_dev)
            return k;
    return -2;
}
static int free_slot(int s) { return s >= 0 && s < NS && !O[s].k; }
static int used(int s) { return s >= 0 && s < NS && O[s].k; }
static int is(int s, const char* k) { return !strcmp(O[s].k, k); }
static int base(int s)
{
    while (used(s) && is(s, "br")) s = O[s].w;
    return s;
}
static void set(int s, const char* k, psock* p, int fd)
{
    memset(&O[s], 0, sizeof O[s]);
    O[s].k = k; O[s].ps = p; O[s].fd = fd; O[s].e = -1; O[s].w = -1;
}
static int port_of(int fd, int peer)
{
    struct sockaddr_in a; socklen_t n = sizeof a;
    memset(&a, 0, sizeof a);
    if ((peer ? getpeername : getsockname)(fd, (void*)&a, &n)) return -1;
    return ntohs(a.sin_port);
}
static const int optname[] = { SO_KEEPALIVE, SO_PRIORITY, SO_DONTROUTE };
static void opts(const char* key, int fd)
{
    long v[3];
    for (int i = 0; i < 3; ++i)
    {
        int x = -1; socklen_t n = sizeof x;
        if (getsockopt(fd, SOL_SOCKET, optname[i], &x, &n)) x = -1;
        v[i] = x;
    }
    ev_ints(key, v, 3);
}

/* ---- operations ---- */
static const char* kinds[] = { "us", "ud", "sp", "pi", "bi", "bo", "ur", "br" };
static void make(int ac, char** av)
{
    int s = atoi(av[2]), k = -1; status st;
    for (int i = 0; i < 8; ++i) if (!strcmp(av[1], kinds[i])) k = i;
    if (k < 0) vh_die("kind");
    if (!free_slot(s)) return;
    psock* p = NULL; psock_br* br = NULL;
    if (k <= 3)
    {
        int t = atoi(av[3]), sv[2];
        if (!free_slot(t) || t == s) return;
        int f = open_fds();
        if (k == 3 ? pipe(sv)
            : socketpair(AF_UNIX, k == 0 ? SOCK_STREAM : k == 1 ? SOCK_DGRAM
                         : SOCK_SEQPACKET, 0, sv)) vh_die("pair");
        CALL(st = psock_create_from_descriptor(&p, ua_get(0), sv[0]));
        psock* q = NULL;
        if (!st && psock_create_from_descriptor(&q, ua_get(0), sv[1]))
            vh_die("second");
        if (st) { close(sv[0]); close(sv[1]); }
        else
        {
            set(s, kinds[k], p, sv[0]); set(t, kinds[k], q, sv[1]);
            O[s].e = nep++; O[t].e = nep++;
        }
        f0 = f;
        ev_open("mk"); ev_str("k", av[1]); ev_int("s", s); ev_int("t", t);
        ev_int("m", 0); ev_int("x", 0); ev_bytes("v", NULL, 0);
        ev_status(st); ev_oom(); ev_fds(); ev_close();
        return;
    }
    int t = -1, m = 0, x = 0;
    narg = 0;
    if (k == 4)
    {
        value(av[3]);
        CALL(st = psock_create_from_buffer(&p, ua_get(0), (char*)arg, narg));
    }
    else if (k == 5) CALL(st = psock_create_from_buffer(&p, ua_get(0), NULL, 0));
    else if (k == 6)
    {
        m = atoi(av[3]) & 9; x = atoi(av[4]);
        CALL(st = psock_create_from_user_methods(&p, ua_get(0), &O[s], &ut[m]));
    }
    else
    {
        t = atoi(av[3]);
        if (!used(t)) return;
        for (int i = 0; i < NS; ++i) if (used(i) && O[i].w == t) return;
        CALL(st = psock_br_create_from_psock(&br, ua_get(0), O[t].ps));
        if (!st) p = psock_br_psock_adapter(br);
    }
    if (!st)
    {
        set(s, kinds[k], p, k == 7 ? O[t].fd : -1);
        O[s].br = br; O[s].w = t; O[s].m = m; O[s].x = x;
    }
    ev_open("mk"); ev_str("k", av[1]); ev_int("s", s); ev_int("t", t);
    ev_int("m", m); ev_int("x", x); ev_bytes("v", arg, narg);
    ev_status(st); ev_oom(); ev_fds(); ev_close();
}
static void op_listen(int ac, char** av)
{   /* lst slot use inject */
    int s = atoi(av[1]), u = atoi(av[2]), f = atoi(av[3]);
    if (!free_slot(s)) return;
    if (u >= 0 && (!used(u) || !is(u, "lis"))) u = -1;
    struct sockaddr_in a; struct sockaddr_in6 b; psock* p = NULL; status st;
    memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    b.sin6_family = AF_INET6; b.sin6_addr = in6addr_loopback;
    if (u >= 0) a.sin_port = htons(O[u].port);
    inject = f;
    if (u == -2)
        CALL(st = psock_create_from_listen_address(
                 &p, ua_get(0), (void*)&b, sizeof b));
    else
        CALL(st = psock_create_from_listen_address(
                 &p, ua_get(0), (void*)&a, u == -3 ? 3 : sizeof a));
    if (!st)
    {
        set(s, "lis", p, lastsock);
        O[s].port = port_of(lastsock, 0);
    }
    ev_open("lst"); ev_int("s", s); ev_int("u", u); ev_int("f", f);
    ev_status(st); ev_oom(); ev_int("null", p == NULL); ev_fds(); ev_close();
}
static void op_connect(int ac, char** av)
{   /* con slot host listener inject */
    int s = atoi(av[1]), h = atoi(av[2]) % 5, l = atoi(av[3]), f = atoi(av[4]);
    if (!free_slot(s)) return;
    if (l >= 0 && (!used(l) || !is(l, "lis"))) l = -1;
    if (l >= 0 && O[l].pend >= 24) return;
    psock* p = NULL; status st;
    want_port = l < 0 ? closedport : O[l].port;
    conn_fam = 0; conn_right = 1; reached = 0;
    nwant4 = h == 4 ? 2 : 1;
    inject = f;
    CALL(st = psock_create_from_hostname_and_port(
             &p, ua_get(0), hosts[h], (unsigned)want_port));
    int to = -1;
    if (!st)
    {
        set(s, "ep", p, lastsock);
        if (nep + 2 >= NE) vh_die("too many connections");
        ep[nep].cport = port_of(lastsock, 0);
        ep[nep].lport = port_of(lastsock, 1);
        O[s].e = nep++; nep++;          /* and the other end */
        if (l >= 0 && want_port == port_of(lastsock, 1)) O[l].pend++, to = l;
    }
    else if (reached && l >= 0)
    {   /* it was made and is gone again: the listener will still see it */
        if (nep + 2 >= NE) vh_die("too many connections");
        ep[nep].cport = reached_port; ep[nep].lport = want_port;
        nep += 2; O[l].pend++;
    }
    ev_open("con"); ev_int("reached", reached); ev_int("s", s); ev_int("h", h); ev_int("l", l);
    ev_int("f", f); ev_int("fam", conn_fam); ev_int("right", conn_right);
    ev_int("to", to); ev_status(st); ev_oom(); ev_int("null", p == NULL);
    ev_fds(); ev_close();
}
static void op_accept(int ac, char** av)
{   /* acc slot new inject addr */
    int s = atoi(av[1]), c = atoi(av[2]), f = atoi(av[3]), ad = atoi(av[4]);
    if (!used(s) || !free_slot(c)) return;
    int b = base(s);
    if (is(b, "lis") && !f)
    {
        if (!O[b].pend && !O[b].nb) return;     /* would wait for ever */
        if (O[b].pend) ready(O[b].fd);
    }
    struct { struct sockaddr_in a; char more[32]; } a; socklen_t n = sizeof a;
    memset(&a, 0x5A, sizeof a);
    int d = -77; status st;
    acc_desc = &d; acc_addr = ad ? (void*)&a : NULL; acc_len = ad ? &n : NULL;
    inject = f;
    CALL(st = psock_accept(O[s].ps, &d, acc_addr, acc_len));
    int kept = d == -77 && n == sizeof a;
    for (size_t i = 0; i < sizeof a; ++i) kept &= ((uint8_t*)&a)[i] == 0x5A;
    long from = -1; int same = 1, delta = open_fds() - f0;
    psock* p = NULL;
    if (!st && is(b, "ur"))
    {
        from = which_pipe(d) == 3 ? -2 : -3;
        close(d);
    }
    else if (!st)
    {
        int port = port_of(d, 1), lport = port_of(d, 0);
        for (int i = 0; i < nep; ++i)
            if (ep[i].cport == port && ep[i].lport == lport) from = i;
        if (ad)
            same = n == sizeof(struct sockaddr_in) && a.a.sin_family == AF_INET
                && ntohs(a.a.sin_port) == port
                && a.a.sin_addr.s_addr == htonl(INADDR_LOOPBACK);
        if (psock_create_from_descriptor(&p, ua_get(0), d)) vh_lib("accepted");
        set(c, "ep", p, d); O[c].e = (int)from + 1;
        if (O[b].pend) O[b].pend--;
    }
    ev_open("acc"); ev_int("s", s); ev_int("c", c); ev_int("f", f);
    ev_int("from", from); ev_int("same", same); ev_int("kept", kept);
    ev_status(st); ev_int("fds", delta); ev_close();
}
static void op_release(int ac, char** av)
{   /* rel slot refuse */
    int s = atoi(av[1]), n = ac > 2 ? atoi(av[2]) : 0;
    if (!used(s)) return;
    for (int i = 0; i < NS; ++i) if (used(i) && O[i].w == s) return;
    struct slot* o = &O[s]; status st;
    resource* r = o->br ? psock_br_resource_handle(o->br)
                        : psock_resource_handle(o->ps);
    int blocks = ua_blocks(0), ur;
    ua_refuse = n;
    CALL(st = resource_release(r));
    ur = o->urel;
    ev_open("rel"); ev_int("s", s); ev_int("n", n); ev_int("hit", ua_refused);
    ev_status(st); ev_int("urel", ur); ev_int("less", blocks > ua_blocks(0));
    ev_fds(); ev_close();
    o->k = NULL; o->w = -1;
}
static void one(int ac, char** av)
{
    const char* o = av[0];
    int s = ac > 1 ? atoi(av[1]) : -1; status st;
#define IS(x) (!strcmp(o, x))
    if (IS("mk")) make(ac, av);
    else if (IS("lst")) op_listen(ac, av);
    else if (IS("con")) op_connect(ac, av);
    else if (IS("acc")) op_accept(ac, av);
    else if (IS("rel")) op_release(ac, av);
    else if (!used(s)) return;
    else if (IS("nb"))
    {
        int b = base(s);
        if (O[b].fd < 0) return;
        fcntl(O[b].fd, F_SETFL, fcntl(O[b].fd, F_GETFL) | O_NONBLOCK);
        O[b].nb = 1;
        ev_open("nb"); ev_int("s", b); ev_close();
    }
    else if (IS("typ"))
    {
        ev_open("typ"); ev_int("s", s);
        ev_int("t", psock_socket_type(O[s].ps)); ev_close();
    }
    else if (IS("w"))
    {
        value(av[2]);
        CALL(st = psock_write_raw_data(O[s].ps, arg, narg));
        ev_open("w"); ev_int("s", s); ev_bytes("v", arg, narg); ev_status(st);
        ev_close();
    }
    else if (IS("r"))
    {
        void* p = NULL; size_t n = strtoul(av[2], NULL, 10);
        CALL(st = psock_read_raw_data(O[s].ps, ua_get(1), &p, n));
        ev_open("r"); ev_int("s", s); ev_int("n", (long)n); ev_status(st);
        ev_bytes("v", p, st ? 0 : n); ev_close();
        if (!st && allocator_reclaim(ua_get(1), p)) vh_lib("reclaim");
    }
    else if (IS("sd"))
    {
        int k = atoi(av[2]) % NP;
        CALL(st = psock_write_raw_descriptor(O[s].ps, pipes[k][0]));
        ev_open("sd"); ev_int("s", s); ev_int("id", k); ev_status(st);
        ev_int("still", which_pipe(pipes[k][0]) == k); ev_fds(); ev_close();
    }
    else if (IS("rd"))
    {
        int d = -1;
        CALL(st = psock_read_raw_descriptor(O[s].ps, &d));
        ev_open("rd"); ev_int("s", s); ev_status(st);
        ev_int("id", st ? -1 : which_pipe(d)); ev_fds(); ev_close();
        if (!st) close(d);
    }
    else if (IS("out"))
    {
        char mark; void* p = &mark; size_t n = 0x5A5A;
        CALL(st = psock_from_buffer_get_output_buffer(
                 O[s].ps, ua_get(1), &p, &n));
        ev_open("out"); ev_int("s", s); ev_status(st); ev_oom();
        ev_int("kept", p == &mark && n == 0x5A5A);
        ev_bytes("v", p, st ? 0 : n); ev_close();
        if (!st && allocator_reclaim(ua_get(1), p)) vh_lib("reclaim");
    }
    else if (IS("opt"))
    {   /* opt slot name value length */
        int i = atoi(av[2]) % 4, v = atoi(av[3]), n = atoi(av[4]);
        int b = base(s);
        ev_open("opt"); ev_int("s", s); ev_int("o", i); ev_int("v", v);
        ev_int("n", n); opts("bef", O[b].fd);
        CALL(st = psock_setsockopt(O[s].ps, SOL_SOCKET,
                                   i == 3 ? 9999 : optname[i], &v, n));
        opts("aft", O[b].fd); ev_status(st); ev_close();
    }
    else vh_die(o);
}

/* ---- scripts ---- */
void vh_script_begin(void)
{
    signal(SIGPIPE, SIG_IGN);
    memset(O, 0, sizeof O); nep = 0; lib = inject = 0;
    for (int i = 0; i < NS; ++i) O[i].w = -1;
    memset(ep, 0, sizeof ep);
    want4[0].s_addr = htonl(INADDR_LOOPBACK);
    want4[1].s_addr = htonl(INADDR_LOOPBACK + 1);
    user_tables();
    ua_begin();
    fbase = open_fds();
    for (int k = 0; k < NP; ++k) if (pipe(pipes[k])) vh_die("pipe");
    struct sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    closedport_fd = socket(AF_INET, SOCK_STREAM, 0);
    if (bind(closedport_fd, (void*)&a, sizeof a)) vh_die("port");
    closedport = port_of(closedport_fd, 0);
}
void vh_op(int ac, char** av) { one(ac, av); }
void vh_script_end(void)
{
    int rc = 0;
    lib = 0;
    for (int pass = 0; pass < 2; ++pass)
        for (int i = 0; i < NS; ++i)
        {
            if (!O[i].k) continue;
            int top = 1;
            for (int j = 0; j < NS; ++j)
                if (O[j].k && O[j].w == i) top = 0;
            if (!top) { pass = 0; continue; }
            status st = resource_release(O[i].br
                ? psock_br_resource_handle(O[i].br)
                : psock_resource_handle(O[i].ps));
            rc |= st && st != USTAT;
            O[i].k = NULL; O[i].w = -1;
        }
    for (int k = 0; k < NP; ++k) { close(pipes[k][0]); close(pipes[k][1]); }
    close(closedport_fd);
    ev_open("end"); ev_int("rc", rc); ev_int("left", open_fds() - fbase);
    ev_int("foreign", foreign); ev_int("live", vh_live); ev_close();
}
