/* Driver for rcpr/socket_utilities.h.  A script's operations run in a child
 * process whose descriptor table is laid out by the script. */
#define _GNU_SOURCE
#include "vh.h"
#include <rcpr/socket_utilities.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

RCPR_IMPORT_socket_utilities;

#define NV 24
#define NFILE 256
static int limit = 64;
static int scan = 64;
static int var[NV];
static struct { ino_t ino; dev_t dev; int id; } files[NFILE]; static int nfiles;
static int next_sock;

void vh_script_begin(void) { }
void vh_op(int ac, char** av) { vh_defer(ac, av); }
static int file_of(int fd, int make)
{
    struct stat b;
    if (fstat(fd, &b)) return -1;
    for (int i = 0; i < nfiles; ++i)
        if (files[i].ino == b.st_ino && files[i].dev == b.st_dev)
            return files[i].id;
    if (nfiles >= NFILE) return -2;
    files[nfiles].ino = b.st_ino; files[nfiles].dev = b.st_dev;
    files[nfiles].id = make >= 0 ? make : next_sock++;
    return files[nfiles++].id;
}
static void table(void)
{
    static char t[1 << 16]; size_t n = 0;
    n += sprintf(t + n, "[");
    for (int i = 0; i < scan && n + 64 < sizeof t; ++i)
    {
        int fl = fcntl(i, F_GETFL);
        if (fl < 0) continue;
        n += sprintf(t + n, "%s[%d,%d,%d,%d,%d]", n > 1 ? "," : "", i,
                     file_of(i, -1), !!(fl & O_NONBLOCK), !!(fl & O_APPEND),
                     !!(fl & O_PATH));
    }
    sprintf(t + n, "]");
    ev_raw("tab", t);
}
static int arg(const char* s)
{
    return *s == 'v' ? var[atoi(s + 1) % NV] : atoi(s);
}
/* lay limit fd:file[:flags] ... */
static void lay(int ac, char** av)
{
    int keep[512], at[512], n = 0;
    limit = atoi(av[1]);
    struct rlimit rl = { 4096, 4096 };
    setrlimit(RLIMIT_NOFILE, &rl);
    /* files are made high up, then everything else is closed. */
    for (int i = 0; i < 4096; ++i) close(i);
    int made[64];
    for (int i = 0; i < 64; ++i) made[i] = -1;
    for (int i = 2; i < ac && n < 512; ++i)
    {
        int fd = atoi(av[i]), f = atoi(strchr(av[i], ':') + 1);
        char* fl = strchr(strchr(av[i], ':') + 1, ':');
        if (f < 0 || f >= 64) vh_die("bad file");
        if (made[f] < 0)
        {
            /* 'p': the reading end of a pipe, which has no flag set at all. */
            int m, pp[2];
            if (fl && strchr(fl, 'p'))
            { if (pipe(pp)) vh_die("pipe"); close(pp[1]); m = pp[0]; }
            else m = memfd_create("f", 0);
            /* 'o': only a place in the file system; its flags cannot be set. */
            if (fl && strchr(fl, 'o'))
            {
                char path[64]; int q;
                sprintf(path, "/proc/self/fd/%d", m);
                if ((q = open(path, O_PATH)) < 0) vh_die("O_PATH");
                close(m); m = q;
            }
            made[f] = fcntl(m, F_DUPFD, 3500);
            close(m);
            file_of(made[f], f);
            int x = (fl && strchr(fl, 'n') ? O_NONBLOCK : 0)
                | (fl && strchr(fl, 'a') ? O_APPEND : 0);
            fcntl(made[f], F_SETFL, x);
        }
        keep[n] = made[f]; at[n++] = fd;
    }
    for (int i = 0; i < n; ++i)
        if (dup2(keep[i], at[i]) < 0) vh_die("layout");
    for (int i = 3500; i < 4096; ++i) close(i);
    /* the limit cannot go below an open descriptor's use of it. */
    struct rlimit l2 = { limit, 4096 };
    setrlimit(RLIMIT_NOFILE, &l2);
    scan = limit;
    for (int i = 0; i < n; ++i) if (at[i] >= scan) scan = at[i] + 1;
    scan += 8;
    next_sock = 1000;
    ev_open("lay"); ev_int("lim", limit); table(); ev_close();
}
static void be(uint8_t* o, uint64_t v, int bits)
{
    for (int i = 0; i < bits / 8; ++i) o[i] = v >> (bits - 8 * (i + 1));
}
static void one(int ac, char** av)
{
    const char* op = av[0];
    status s;
    if (!strcmp(op, "lay")) { lay(ac, av); return; }
    if (!strcmp(op, "mv"))           /* mv threshold fd ... -> v0 ... */
    {
        int n = ac - 2, x[NV] = { 0 }, thr = atoi(av[1]);
        long b[NV], a[NV];
        int* p[NV + 1] = { 0 };
        if (n > NV) vh_die("too many variables");
        for (int i = 0; i < n && i < NV; ++i)
        { b[i] = x[i] = arg(av[2 + i]); p[i] = &x[i]; }
        LIB(s = socket_utility_move_descriptors(
                thr, p[0], p[1], p[2], p[3], p[4], p[5], p[6],
                p[7], p[8], p[9], p[10], p[11], p[12], p[13],
                p[14], p[15], p[16], p[17], p[18], p[19],
                p[20], p[21], p[22], p[23], NULL));
        for (int i = 0; i < n; ++i) { a[i] = x[i]; var[i] = x[i]; }
        ev_open(op); ev_int("thr", thr); ev_ints("b", b, n);
        ev_ints("a", a, n); ev_status(s); table(); ev_close();
    }
    else if (!strcmp(op, "sf"))      /* sf fd to fd to ... -1 */
    {
        int x[49]; long l[49]; int n = ac - 1;
        if (n > 49) vh_die("too many numbers");
        for (int i = 0; i < 49; ++i)
        { x[i] = i < n ? arg(av[1 + i]) : -1; if (i < n) l[i] = x[i]; }
        LIB(s = socket_utility_setfds(
                x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7],
                x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15],
                x[16], x[17], x[18], x[19], x[20], x[21], x[22], x[23],
                x[24], x[25], x[26], x[27], x[28], x[29], x[30], x[31],
                x[32], x[33], x[34], x[35], x[36], x[37], x[38], x[39],
                x[40], x[41], x[42], x[43], x[44], x[45], x[46], x[47],
                x[48], -1));
        ev_open(op); ev_ints("x", l, n); ev_status(s); table(); ev_close();
    }
    else if (!strcmp(op, "co"))
    {
        int fd = arg(av[1]);
        LIB(s = socket_utility_close_other_fds(fd));
        ev_open(op); ev_int("fd", fd); ev_status(s); table(); ev_close();
    }
    else if (!strcmp(op, "cs"))
    {
        LIB(s = socket_utility_close_standard_fds());
        ev_open(op); ev_status(s); table(); ev_close();
    }
    else if (!strcmp(op, "nb"))
    {
        int fd = arg(av[1]);
        LIB(s = socket_utility_set_nonblock(fd));
        ev_open(op); ev_int("fd", fd); ev_status(s); table(); ev_close();
    }
    else if (!strcmp(op, "pr"))      /* pr good|bad -> v0 v1 */
    {
        int l = -7, r = -7, ok = 0;
        int dom = !strcmp(av[1], "bad") ? 12345 : AF_UNIX;
        int type = !strcmp(av[1], "dgram") ? SOCK_DGRAM : SOCK_STREAM;
        LIB(s = socket_utility_socketpair(dom, type, 0, &l, &r));
        if (!s)
        {
            char t[4] = { 0 };
            ok = write(l, "ab", 2) == 2 && read(r, t, 4) == 2 && t[0] == 'a'
                && t[1] == 'b' && write(r, "c", 1) == 1 && read(l, t, 4) == 1
                && t[0] == 'c';
            int ty = 0; socklen_t n = sizeof ty;
            getsockopt(l, SOL_SOCKET, SO_TYPE, &ty, &n);
            ok = ok && ty == type;
            var[0] = l; var[1] = r;
        }
        ev_open(op); ev_str("kind", av[1]); ev_status(s); ev_int("l", l);
        ev_int("r", r); ev_int("talk", ok); table(); ev_close();
    }
    else if (!strcmp(op, "hn"))      /* hn bits value */
    {
        int bits = atoi(av[1]); uint64_t v = strtoull(av[2], 0, 16);
        uint8_t w[8], m[8] = { 0 }, k[8] = { 0 }, h[8] = { 0 };
        be(w, v, bits);
        if (bits == 16)
        {
            int16_t x = (int16_t)v, y, z;
            LIB(y = socket_utility_hton16(x)); memcpy(m, &y, 2);
            z = socket_utility_ntoh16(y); be(k, (uint16_t)z, 16);
            memcpy(&y, w, 2); be(h, (uint16_t)socket_utility_ntoh16(y), 16);
        }
        else if (bits == 32)
        {
            int32_t x = (int32_t)v, y, z;
            LIB(y = socket_utility_hton32(x)); memcpy(m, &y, 4);
            z = socket_utility_ntoh32(y); be(k, (uint32_t)z, 32);
            memcpy(&y, w, 4); be(h, (uint32_t)socket_utility_ntoh32(y), 32);
        }
        else
        {
            int64_t x = (int64_t)v, y, z;
            LIB(y = socket_utility_hton64(x)); memcpy(m, &y, 8);
            z = socket_utility_ntoh64(y); be(k, (uint64_t)z, 64);
            memcpy(&y, w, 8); be(h, (uint64_t)socket_utility_ntoh64(y), 64);
        }
        ev_open(op); ev_bytes("v", w, bits / 8); ev_bytes("net", m, bits / 8);
        ev_bytes("back", k, bits / 8); ev_bytes("host", h, bits / 8);
        ev_close();
    }
    else vh_die("unknown op");
}
static void finish(void)
{
    ev_open("end"); ev_int("live", vh_live); ev_close();
}
void vh_script_end(void) { nfiles = 0; vh_run_forked(&one, &finish); }
