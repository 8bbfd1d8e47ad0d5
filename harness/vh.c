#define _GNU_SOURCE
#include "vh.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <errno.h>

long vh_live = 0;
int vh_fail_at = 0;
int vh_fired = 0;
int vh_allocs = 0;
int vh_arm_next = 0;

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);

static int vh_should_fail(void)
{
    ++vh_allocs;
    if (vh_fail_at > 0 && --vh_fail_at == 0)
    {
        vh_fired = 1;
        return 1;
    }
    /* negative: that one and every later one. */
    if (vh_fail_at < 0 && ++vh_fail_at == 0)
    {
        vh_fail_at = -1; vh_fired = 1;
        return 1;
    }
    return 0;
}

void* __wrap_malloc(size_t n)
{
    if (vh_should_fail()) return NULL;
    void* p = __real_malloc(n);
    if (p) { ++vh_live; memset(p, 0xA5, n); }
    return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
    if (vh_should_fail()) return NULL;
    void* p = __real_calloc(a, b);
    if (p) ++vh_live;
    return p;
}
void* __wrap_realloc(void* q, size_t n)
{
    if (vh_should_fail()) return NULL;
    void* p = __real_realloc(q, n);
    if (p && !q) ++vh_live;
    return p;
}
void __wrap_free(void* p)
{
    if (p) --vh_live;
    __real_free(p);
}
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o)
{
    if (vh_should_fail()) { errno = ENOMEM; return MAP_FAILED; }
    void* p = __real_mmap(a, n, pr, fl, fd, o);
    if (p != MAP_FAILED) ++vh_live;
    return p;
}
int __wrap_munmap(void* p, size_t n)
{
    int r = __real_munmap(p, n);
    if (r == 0) --vh_live;
    return r;
}
void* vh_xmalloc(size_t n)
{
    void* p = __real_malloc(n ? n : 1);
    if (!p) vh_die("harness out of memory");
    return p;
}
void vh_xfree(void* p) { __real_free(p); }

/* ---- output ---- */
static FILE* out;
static char* buf; static size_t len, cap;
static int first_ev;

static void put(const char* s, size_t n)
{
    if (len + n + 1 > cap)
    {
        cap = (cap + n + 4096) * 2;
        buf = __real_realloc(buf, cap);
    }
    memcpy(buf + len, s, n); len += n;
}
static void puts_(const char* s) { put(s, strlen(s)); }
static void key(const char* k) { puts_(",\""); puts_(k); puts_("\":"); }

void ev_open(const char* op)
{
    if (!first_ev) puts_(",");
    first_ev = 0;
    puts_("{\"op\":\""); puts_(op); puts_("\"");
}
void ev_int(const char* k, long v)
{
    char t[32]; key(k); snprintf(t, sizeof t, "%ld", v); puts_(t);
}
void ev_str(const char* k, const char* v)
{
    key(k); puts_("\"");
    for (; *v; ++v)
    {
        char t[8];
        if (*v == '"' || *v == '\\') { t[0] = '\\'; t[1] = *v; put(t, 2); }
        else if ((unsigned char)*v < 32 || (unsigned char)*v > 126)
        { snprintf(t, sizeof t, "\\u%04x", (unsigned char)*v); puts_(t); }
        else put(v, 1);
    }
    puts_("\"");
}
void ev_ints(const char* k, const long* v, int n)
{
    key(k); puts_("[");
    for (int i = 0; i < n; ++i)
    {
        char t[32]; snprintf(t, sizeof t, i ? ",%ld" : "%ld", v[i]); puts_(t);
    }
    puts_("]");
}
void ev_bytes(const char* k, const void* p, size_t n)
{
    const uint8_t* b = p;
    key(k); puts_("[");
    for (size_t i = 0; i < n; ++i)
    {
        char t[8]; snprintf(t, sizeof t, i ? ",%d" : "%d", b[i]); puts_(t);
    }
    puts_("]");
}
void ev_raw(const char* k, const char* j) { key(k); puts_(j); }

#define X(n) { n, #n },
static const struct { status s; const char* n; } names[] = {
    { STATUS_SUCCESS, "ok" },
    { ERROR_GENERAL_OUT_OF_MEMORY, "oom" },
    X(ERROR_THREAD_ATTRIBUTE_INIT) X(ERROR_THREAD_ATTRIBUTE_SETSTACKSIZE)
    X(ERROR_THREAD_CREATE) X(ERROR_THREAD_JOIN) X(ERROR_THREAD_MUTEX_INIT)
    X(ERROR_THREAD_MUTEX_DESTROY) X(ERROR_THREAD_MUTEX_UNLOCK)
    X(ERROR_THREAD_MUTEX_LOCK) X(ERROR_THREAD_COND_INIT)
    X(ERROR_THREAD_COND_DESTROY) X(ERROR_THREAD_COND_WAIT)
    X(ERROR_PSOCK_READ_GENERAL) X(ERROR_PSOCK_WRITE_GENERAL)
    X(ERROR_PSOCK_READ_WOULD_BLOCK) X(ERROR_PSOCK_WRITE_WOULD_BLOCK)
    X(ERROR_PSOCK_READ_INVALID_SIZE) X(ERROR_PSOCK_WRITE_INVALID_SIZE)
    X(ERROR_PSOCK_READ_BOXED_INVALID_TYPE)
    X(ERROR_PSOCK_READ_BOXED_INVALID_SIZE)
    X(ERROR_PSOCK_UNSUPPORTED_TYPE) X(ERROR_PSOCK_ACCEPT_WOULD_BLOCK)
    X(ERROR_PSOCK_ACCEPT_GENERAL) X(ERROR_PSOCK_READ_EOF)
    X(ERROR_PSOCK_WRITE_EOF) X(ERROR_PSOCK_EPOLL_CREATE_FAILED)
    X(ERROR_PSOCK_EPOLL_CTL_FAILED) X(ERROR_PSOCK_EPOLL_WAIT_FAILED)
    X(ERROR_PSOCK_POLL_FAILED) X(ERROR_PSOCK_SENDMSG_FAILED)
    X(ERROR_PSOCK_RECVMSG_FAILED) X(ERROR_PSOCK_USER_METHOD_UNDEFINED)
    X(ERROR_PSOCK_SOCKET_CREATE) X(ERROR_PSOCK_CONNECTION_REFUSED)
    X(ERROR_PSOCK_OPERATION_NOT_SUPPORTED)
    X(ERROR_PSOCK_BR_READ_LINE_BAD_LOOP_INVARIANT)
    X(ERROR_PSOCK_BR_READ_LINE_BUFFER_SIZE_TOO_SMALL)
    X(ERROR_PSOCK_BR_READ_LINE_TRUNCATED)
    X(ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED) X(ERROR_PSOCK_METHOD_UNDEFINED)
    X(ERROR_PSOCK_SETSOCKOPT) X(ERROR_PSOCK_HOSTNAME_LOOKUP_FAILURE)
    X(ERROR_PSOCK_CREATE_FROM_ADDRESS_SOCKET_CREATE)
    X(ERROR_PSOCK_CREATE_FROM_ADDRESS_BIND)
    X(ERROR_PSOCK_CREATE_FROM_ADDRESS_LISTEN)
    X(ERROR_PSOCK_CREATE_FROM_ADDRESS_CLOSE)
    X(ERROR_UUID_PARSING_FAILED)
    X(ERROR_GENERAL_BAD_VTABLE) X(ERROR_GENERAL_CONTROL_KEY_INVALID)
    X(ERROR_GENERAL_REALLOCATION_NOT_SUPPORTED)
    X(ERROR_GENERAL_INVALID_ARGUMENTS) X(ERROR_STRING_INVALID_PARAMETER)
    X(ERROR_STRING_END_OF_INPUT) X(ERROR_RBTREE_NIL_NODE_CANNOT_BE_RELEASED)
    X(ERROR_RBTREE_NOT_FOUND) X(ERROR_CONDITION_UNKNOWN_ERROR)
    X(ERROR_AUTO_RESET_TRIGGER_LISTENER_ALREADY_REGISTERED)
    X(ERROR_STACK_UNMAP) X(ERROR_MESSAGE_ALREADY_BLOCKED)
    X(ERROR_MESSAGE_UNKNOWN_ERROR)
    X(ERROR_SOCKET_UTILITIES_SOCKETPAIR_FAILURE)
    X(ERROR_SOCKET_UTILITIES_SET_NONBLOCK_FAILURE)
    X(ERROR_SOCKET_UTILITIES_DUP2_FAILURE)
    X(ERROR_FIBER_SCHEDULER_CALLBACK_STATE)
    X(ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND)
    X(ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED)
    X(ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID)
    X(ERROR_FIBER_SCHEDULER_DISCIPLINE_ALREADY_OWNED)
    X(ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT)
    X(ERROR_FIBER_SCHEDULER_EXHAUSTED) X(ERROR_FIBER_UNEXPECTED_RESUME_EVENT)
    X(ERROR_FIBER_INVALID_STATE) X(ERROR_FIBER_NO_UNEXPECTED_HANDLER)
};
#undef X
const char* vh_status_name(status s)
{
    static char t[32];
    for (size_t i = 0; i < sizeof names / sizeof *names; ++i)
        if (names[i].s == s) return names[i].n;
    snprintf(t, sizeof t, "status_%08x", (unsigned)s);
    return t;
}
void ev_statusk(const char* k, status s) { ev_str(k, vh_status_name(s)); }
void ev_status(status s) { ev_statusk("st", s); }
void ev_oom(void) { ev_int("oom", vh_fired); vh_fired = 0; }
void ev_close(void) { puts_("}"); }

void vh_die(const char* msg)
{
    fprintf(stderr, "HARNESS: %s\n", msg);
    fflush(NULL);
    _exit(3);
}
void vh_lib(const char* msg)
{
    fprintf(stderr, "a call failed that must not: %s\n", msg);
    fflush(NULL);
    _exit(5);
}
static jmp_buf diverge;
static int abandoned, perhaps;   /* "?op": skipped if it does not apply */
void vh_diverged(const char* msg)
{
    if (perhaps) longjmp(diverge, 1);
    ev_open("diverged"); ev_str("why", msg); ev_close();
    abandoned = 1;
    longjmp(diverge, 1);
}
static int alarm_secs = 10;
void vh_alarm(int s) { alarm_secs = s; }

/* ---- tracked resources ---- */
tres* vh_tres[TRES_MAX]; static int tres_top;
static long rel[TRES_MAX]; static int nrel;

static status tres_release(RCPR_SYM(resource)* r)
{
    tres* t = (tres*)r;
    if (t->id < 0 || t->id >= TRES_MAX || vh_tres[t->id] != t)
    {
        fprintf(stderr, "tracked resource %d released twice\n", t->id);
        abort();
    }
    vh_tres[t->id] = NULL;
    if (nrel < TRES_MAX) rel[nrel++] = t->id;
    __real_free(t);
    return STATUS_SUCCESS;
}
RCPR_VTABLE RCPR_SYM(resource_vtable) tres_vtable = { &tres_release };

RCPR_SYM(resource)* tres_new(int id, int key)
{
    if (id < 0 || id >= TRES_MAX) vh_die("bad resource id");
    if (vh_tres[id]) vh_diverged("resource still owned");
    tres* t = vh_xmalloc(sizeof *t);
    RCPR_SYM(resource_init)(&t->hdr, &tres_vtable);
    t->id = id; t->key = key;
    vh_tres[id] = t; if (id >= tres_top) tres_top = id + 1;
    return &t->hdr;
}
long tres_id(RCPR_SYM(resource)* r) { return r ? ((tres*)r)->id : -1; }
void tres_drop(RCPR_SYM(resource)* r)
{
    tres* t = (tres*)r;
    if (!r) return;
    vh_tres[t->id] = NULL;
    __real_free(t);
}
int vh_rel_count(void) { return nrel; }
void vh_rel_reset(void) { nrel = 0; }
void ev_rel(void) { ev_ints("rel", rel, nrel); nrel = 0; }

/* ---- scripts run in a child process ---- */
#define SHARED (1 << 22)
struct shared { int done; size_t n; char text[]; };
static struct shared* sh;
static char* lines[4096]; static int nlines;
void vh_defer(int ac, char** av)
{
    size_t n = 32;
    for (int i = 0; i < ac; ++i) n += strlen(av[i]) + 1;
    if (nlines >= 4096) vh_die("script too long");
    char* l = lines[nlines++] = vh_xmalloc(n);
    *l = 0;
    if (vh_arm_next) sprintf(l, "!%d ", vh_arm_next);
    for (int i = 0; i < ac; ++i) { strcat(l, av[i]); strcat(l, " "); }
}
void vh_run_forked(void (*one)(int, char**), void (*finish)(void))
{
    if (!sh)
    {
        sh = __real_mmap(NULL, SHARED, PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) vh_die("shared memory");
    }
    sh->done = 0;
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) vh_die("fork");
    if (!p)
    {
        size_t from = len;
        alarm(alarm_secs);
        vh_live = 0; vh_arm_next = 0; vh_fail_at = 0;
        for (int i = 0; i < nlines && !abandoned; ++i)
        {
            char* av[64]; int ac = 0, base = 0;
            for (char* t = strtok(lines[i], " "); t && ac < 64;
                 t = strtok(NULL, " "))
                av[ac++] = t;
            vh_arm_next = 0; vh_fired = 0;
            if (ac && av[0][0] == '!')
            { vh_arm_next = atoi(av[0] + 1); base = 1; }
            if (ac > base && !setjmp(diverge)) one(ac - base, av + base);
        }
        if (!abandoned && !setjmp(diverge)) finish();
        size_t n = len - from;
        if (n > SHARED - sizeof *sh) _exit(4);
        memcpy(sh->text, buf + from, n);
        sh->n = n; sh->done = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    for (int i = 0; i < nlines; ++i) vh_xfree(lines[i]);
    nlines = 0;
    if (!WIFEXITED(st) || WEXITSTATUS(st) || !sh->done)
    {
        fprintf(stderr, "child ended with status %x\n", st);
        if (WIFSIGNALED(st))
        { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
        _exit(WIFEXITED(st) && WEXITSTATUS(st) ? WEXITSTATUS(st) : 1);
    }
    put(sh->text, sh->n);
}

/* ---- main: FILE OUT [first-script] ---- */
int main(int argc, char** argv)
{
    if (argc < 3) vh_die("usage: driver SCRIPTS OUT [first]");
    FILE* in = fopen(argv[1], "r");
    out = fopen(argv[2], "a");
    if (!in || !out) vh_die("cannot open files");
    long first = argc > 3 ? atol(argv[3]) : 0, cur = -1;
    static char line[1 << 16];
    int active = 0;
    while (fgets(line, sizeof line, in))
    {
        char* av[512]; int ac = 0;
        for (char* t = strtok(line, " \t\r\n"); t && ac < 512;
             t = strtok(NULL, " \t\r\n"))
            av[ac++] = t;
        if (!ac) continue;
        if (!strcmp(av[0], "S"))
        {
            ++cur; active = cur >= first;
            if (!active) continue;
            len = 0; puts_("["); first_ev = 1; nrel = 0;
            memset(vh_tres, 0, tres_top * sizeof *vh_tres); tres_top = 0;
            vh_live = 0; vh_fail_at = 0; vh_fired = 0; vh_arm_next = 0;
            alarm(alarm_secs);
            abandoned = 0;
            vh_script_begin();
        }
        else if (!strcmp(av[0], "E"))
        {
            if (!active) continue;
            if (!abandoned && !setjmp(diverge)) vh_script_end();
            alarm(0);
            for (int i = 0; i < tres_top; ++i)
                if (vh_tres[i]) { __real_free(vh_tres[i]); vh_tres[i] = 0; }
            puts_("]\n");
            if (fwrite(buf, 1, len, out) != len) vh_die("write failed");
            fflush(out);
        }
        else if (active && !abandoned)
        {
            int base = 0;
            vh_arm_next = 0; vh_fired = 0;
            if (av[0][0] == '!') { vh_arm_next = atoi(av[0] + 1); base = 1; }
            else if (av[0][0] == '?') { perhaps = 1; ++av[0]; }
            if (!setjmp(diverge)) vh_op(ac - base, av + base);
            perhaps = 0;
        }
    }
    fclose(out);
    return 0;
}
