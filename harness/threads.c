/* Driver for rcpr/thread.h.  Worker threads created through the library are
 * stepped one command at a time; a command that blocks stays pending and its
 * completion is reported with the command that let it finish. */
#define _GNU_SOURCE
#include "vh.h"
#include <rcpr/allocator.h>
#include <rcpr/thread.h>
#include <pthread.h>
#include <errno.h>
#include <semaphore.h>
#include <unistd.h>
#include <sys/syscall.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;
RCPR_IMPORT_thread;
#include "ualloc.h"

/* the platform's calls: one may fail when told to; what is made is counted. */
static const char* volatile fail_next; static const char* volatile failed;
static volatile int bal;        /* made and not destroyed */
static int fails(const char* n)
{
    const char* f = fail_next;
    if (!f || strcmp(f, n) || !__sync_bool_compare_and_swap(&fail_next, f, NULL))
        return 0;
    failed = n;
    return 1;
}
#define MAKE(F, T, P) \
int __real_pthread_##F##_init P; \
int __wrap_pthread_##F##_init P \
{ \
    if (fails(#F "_init")) return EAGAIN; \
    __sync_fetch_and_add(&bal, 1); \
    return __real_pthread_##F##_init T; \
} \
int __real_pthread_##F##_destroy(pthread_##F##_t*); \
int __wrap_pthread_##F##_destroy(pthread_##F##_t* x) \
{ \
    int r = __real_pthread_##F##_destroy(x); \
    __sync_fetch_and_sub(&bal, 1); \
    return fails(#F "_destroy") ? EBUSY : r; \
}
MAKE(mutex, (x, a), (pthread_mutex_t* x, const pthread_mutexattr_t* a))
MAKE(cond, (x, a), (pthread_cond_t* x, const pthread_condattr_t* a))
MAKE(attr, (x), (pthread_attr_t* x))
#define CALL(F, T, P) \
int __real_pthread_##F P; \
int __wrap_pthread_##F P \
{ return fails(#F) ? EINVAL : __real_pthread_##F T; }
CALL(mutex_lock, (m), (pthread_mutex_t* m))
CALL(mutex_unlock, (m), (pthread_mutex_t* m))
CALL(cond_wait, (c, m), (pthread_cond_t* c, pthread_mutex_t* m))
CALL(cond_signal, (c), (pthread_cond_t* c))
CALL(cond_broadcast, (c), (pthread_cond_t* c))
CALL(attr_setstacksize, (a, n), (pthread_attr_t* a, size_t n))
CALL(create, (p, a, f, x), (pthread_t* p, const pthread_attr_t* a, void* (*f)(void*), void* x))
int __real_pthread_join(pthread_t, void**);
int __wrap_pthread_join(pthread_t p, void** v)
{
    int f = fails("join"), r = __real_pthread_join(p, v);
    return f ? EINVAL : r;
}
static const char* calls[] = { "mutex_init", "mutex_destroy", "mutex_lock",
    "mutex_unlock", "cond_init", "cond_destroy", "cond_wait", "cond_signal",
    "cond_broadcast", "attr_init", "attr_setstacksize", "create", "join" };

#define NT 24
#define NM 2
#define NC 3
#define MOF(c) ((c) % NM)
enum { CNONE, CLOCK, CUNLOCK, CWAIT, CSIG1, CSIGALL, CEXIT, CJOIN };
static const char* cname[] = { "none", "lock", "unlock", "wait", "sig1",
                               "sigall", "exit", "join" };
static allocator* alloc;
static thread_mutex* mx[NM];
static thread_cond* cv[NC];

typedef struct worker
{
    thread* th;                 /* NULL: joined or never made */
    int made, started, exited;  /* exited: the exit command was given */
    volatile int tid;
    sem_t go;
    int cmd, arg;
    volatile int done;          /* the command has finished */
    status st;
    int busy;                   /* a command is pending */
    thread_mutex_lock* lk[NM];  /* locks it holds */
    int holds[NM];              /* as the controller has seen */
    size_t stack; void* ctx;
} worker;
static worker w[NT], jn[NT];    /* jn: joiners, plain threads */

static void run_cmd(worker* x)
{
    int a = x->arg; status s = 0;
    switch (x->cmd)
    {
    case CLOCK:
        x->lk[a] = NULL;
        s = thread_mutex_lock_acquire(&x->lk[a], mx[a]);
        if (!s != !!x->lk[a]) s = -1;
        break;
    case CUNLOCK:
        s = resource_release(thread_mutex_lock_resource_handle(x->lk[a]));
        break;
    case CWAIT: s = thread_cond_wait(&x->lk[MOF(a)], cv[a]); break;
    case CSIG1: s = thread_cond_signal_one(x->lk[MOF(a)], cv[a]); break;
    case CSIGALL: s = thread_cond_signal_all(x->lk[MOF(a)], cv[a]); break;
    }
    x->st = s;
}
static status body(void* c)
{
    worker* x = c;
    pthread_attr_t at;
    x->ctx = c;
    if (!pthread_getattr_np(pthread_self(), &at))
    { pthread_attr_getstacksize(&at, &x->stack); __real_pthread_attr_destroy(&at); }
    __sync_synchronize();
    x->tid = (int)syscall(SYS_gettid);
    for (;;)
    {
        while (sem_wait(&x->go)) ;
        if (x->cmd == CEXIT)
        {
            int v = x->arg;
            x->st = 0;
            __sync_synchronize(); x->done = 1;
            return (status)v;
        }
        run_cmd(x);
        __sync_synchronize(); x->done = 1;
    }
}
static void* joiner(void* c)
{
    worker* x = c;
    x->tid = (int)syscall(SYS_gettid);
    x->st = resource_release(thread_resource_handle(w[x->arg].th));
    __sync_synchronize(); x->done = 1;
    return NULL;
}
static int blocked(int tid)
{
    char p[64], t[512];
    if (!tid) return 0;
    snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
    FILE* f = fopen(p, "r");
    if (!f) return 0;
    size_t n = fread(t, 1, sizeof t - 1, f); t[n] = 0; fclose(f);
    char* q = strrchr(t, ')');
    return q && q[2] == 'S';
}
static int alive(int tid)
{
    char p[64];
    snprintf(p, sizeof p, "/proc/self/task/%d", tid);
    return !access(p, F_OK);
}
/* wait until every pending command is finished or asleep. */
static void quiesce(void)
{
    for (int calm = 0, n = 0; calm < 3 && n < 20000; ++n)
    {
        int stir = 0;
        for (int i = 0; i < 2 * NT; ++i)
        {
            worker* x = i < NT ? &w[i] : &jn[i - NT];
            if (x->busy && !x->done && !blocked(x->tid)) stir = 1;
            /* an exiting thread is finished when it is gone. */
            if (x->busy && x->done && x->cmd == CEXIT && alive(x->tid)) stir = 1;
        }
        calm = stir ? 0 : calm + 1;
        if (calm < 3) usleep(stir ? 20 : 150);
    }
    __sync_synchronize();
}
/* "done": [thread, command, argument, status] finished since last time;
 * "pend": those still blocked. */
static void report(void)
{
    static char d[8192], p[8192]; size_t nd = 0, np = 0;
    quiesce();
    nd += sprintf(d, "["); np += sprintf(p, "[");
    for (int i = 0; i < 2 * NT; ++i)
    {
        worker* x = i < NT ? &w[i] : &jn[i - NT];
        int id = i < NT ? i : i - NT;
        if (!x->busy) continue;
        if (x->done)
        {
            x->busy = x->done = 0;
            nd += sprintf(d + nd, "%s[%d,\"%s\",%d,\"%s\"]", nd > 1 ? "," : "",
                          id, cname[x->cmd],
                          x->cmd == CJOIN && !failed ? (int)x->st : x->arg,
                          x->cmd == CJOIN && !failed ? "ok"
                          : vh_status_name(x->st));
            if (x->cmd == CLOCK) x->holds[x->arg] = !x->st;
            if (x->cmd == CUNLOCK) x->holds[x->arg] = !!x->st;
            if (x->cmd == CWAIT) x->holds[MOF(x->arg)] = 1;
            if (x->cmd == CJOIN) { w[id].th = NULL; }
        }
        else
            np += sprintf(p + np, "%s[%d,\"%s\",%d]", np > 1 ? "," : "", id,
                          cname[x->cmd], x->arg);
    }
    sprintf(d + nd, "]"); sprintf(p + np, "]");
    ev_raw("done", d); ev_raw("pend", p);
    ev_str("pf", failed ? failed : "");
}
static int idle(int t)
{ return w[t].th && w[t].started && !w[t].busy && !w[t].exited; }
static int holder(int m)
{
    for (int t = 0; t < NT; ++t) if (w[t].holds[m]) return t;
    return -1;
}
/* the k-th idle thread that holds nothing from m up (lock order). */
static int nth_idle(int k, int m)
{
    int c[NT], n = 0;
    for (int t = 0; t < NT; ++t)
    {
        int ok = idle(t);
        for (int j = m; j < NM; ++j) if (w[t].holds[j]) ok = 0;
        if (ok) c[n++] = t;
    }
    return n ? c[k % n] : -1;
}
static void none(void) { ev_open("none"); ev_close(); }
static void give(int t, int cmd, int a)
{
    w[t].cmd = cmd; w[t].arg = a; w[t].done = 0; w[t].busy = 1;
    if (cmd == CUNLOCK) w[t].holds[a] = 0;
    if (cmd == CWAIT) w[t].holds[MOF(a)] = 0;
    __sync_synchronize();
    ev_open(cname[cmd]); ev_int("t", t); ev_int("a", a);
    sem_post(&w[t].go);
    report(); ev_close();
}
static void make(int t, size_t stack, const char* kind)
{
    status s; thread* th = NULL; int bal0 = bal;
    memset(&w[t], 0, sizeof w[t]);
    sem_init(&w[t].go, 0, 0);
    LIB(s = thread_create(&th, alloc, stack, &w[t], &body));
    w[t].th = s ? NULL : th; w[t].made = !s;
    ev_open("tn"); ev_int("t", t); ev_str("kind", kind); ev_status(s);
    ev_oom(); ev_int("null", th == NULL); ev_str("pf", failed ? failed : "");
    ev_int("bal", bal - bal0);
    if (!s)
    {
        for (int i = 0; i < 50000 && !w[t].tid; ++i) usleep(20);
        w[t].started = w[t].tid != 0;
        ev_int("ran", w[t].started);
        ev_int("ctx", w[t].ctx == &w[t]);
        ev_int("big", w[t].stack >= stack);
    }
    ev_close();
    vh_fired = 0;
}
static void join(int t)
{
    pthread_t p; pthread_attr_t at;
    memset(&jn[t], 0, sizeof jn[t]);
    jn[t].cmd = CJOIN; jn[t].arg = t; jn[t].busy = 1;
    ev_open("join"); ev_int("t", t); ev_int("a", t);
    __real_pthread_attr_init(&at);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    if (__real_pthread_create(&p, &at, &joiner, &jn[t])) vh_die("joiner");
    while (!jn[t].tid) usleep(20);
    report(); ev_close();
}
static int zero;
static status quick(void* c) { return c == &zero ? 4711 : 1; }
static void step(int ac, char** av)
{
    const char* op = av[0];
    int a = ac > 1 ? atoi(av[1]) : 0, b = ac > 2 ? atoi(av[2]) : 0, t;
    status s;
    if (!alloc)
    {
        ua_begin();
        if (malloc_allocator_create(&alloc)) vh_lib("allocator");
        for (int i = 0; i < NM; ++i)
            if (thread_mutex_create(&mx[i], alloc)) vh_lib("mutex");
        for (int i = 0; i < NC; ++i)
            if (thread_cond_create(&cv[i], alloc)) vh_lib("cond");
    }
    if (!strcmp(op, "tn"))           /* tn t kind */
    {
        if (w[a].th || a >= NT) { none(); return; }
        const char* k = ac > 2 ? av[2] : "plain";
        make(a, !strcmp(k, "tiny") ? 1 : !strcmp(k, "huge") ? (size_t)1 << 46
             : !strcmp(k, "big") ? (size_t)3 << 20 : (size_t)1 << 18, k);
    }
    else if (!strcmp(op, "mk"))  /* mk mutex|cond|thread n: create, release;
                                    the n-th reclaim is refused */
    {
        status r = 0; int nul = 0, bal0 = bal; long live = vh_live;
        const char* k = av[1];
        ua_refuse = b; ua_refused = 0;
        if (!strcmp(k, "mutex"))
        {
            thread_mutex* m = NULL;
            LIB(s = thread_mutex_create(&m, ua_get(0))); nul = m == NULL;
            if (!s)
            {
                thread_mutex_lock* l = NULL;
                r = thread_mutex_lock_acquire(&l, m);
                if (!r) r = resource_release(
                            thread_mutex_lock_resource_handle(l));
                if (r) vh_lib("lock and unlock");
                LIB(r = resource_release(thread_mutex_resource_handle(m)));
            }
        }
        else if (!strcmp(k, "cond"))
        {
            thread_cond* m = NULL;
            LIB(s = thread_cond_create(&m, ua_get(0))); nul = m == NULL;
            if (!s) LIB(r = resource_release(thread_cond_resource_handle(m)));
        }
        else
        {
            thread* m = NULL;
            LIB(s = thread_create(&m, ua_get(0), (size_t)1 << 18, &zero,
                                  &quick)); nul = m == NULL;
            if (!s) LIB(r = resource_release(thread_resource_handle(m)));
        }
        ev_open(op); ev_str("kind", k); ev_status(s); ev_oom();
        ev_int("null", nul); ev_statusk("rc", r);
        ev_str("pf", failed ? failed : ""); ev_int("refused", ua_refused);
        ev_int("bal", bal - bal0); ev_int("live", vh_live - live);
        ev_int("foreign", foreign); ev_close();
        ua_refuse = 0;
    }
    else if (!strcmp(op, "lk"))      /* lk m k */
    {
        if ((t = nth_idle(b, a)) < 0) none(); else give(t, CLOCK, a);
    }
    else if (!strcmp(op, "ul") || !strcmp(op, "wt") || !strcmp(op, "s1")
             || !strcmp(op, "sa"))
    {
        int cmd = !strcmp(op, "ul") ? CUNLOCK : !strcmp(op, "wt") ? CWAIT
            : !strcmp(op, "s1") ? CSIG1 : CSIGALL;
        int m = cmd == CUNLOCK ? a : MOF(a);
        t = holder(m);
        /* re-acquiring keeps the lock order. */
        int high = 0;
        for (int j = m + 1; t >= 0 && cmd == CWAIT && j < NM; ++j)
            high |= w[t].holds[j];
        if (t < 0 || w[t].busy || high) none(); else give(t, cmd, a);
    }
    else if (!strcmp(op, "ex"))      /* ex k value */
    {
        if ((t = nth_idle(a, 0)) < 0) { none(); return; }
        w[t].exited = 1; give(t, CEXIT, b);
    }
    else if (!strcmp(op, "jn"))
    {
        if (a >= NT || !w[a].th || jn[a].busy) none(); else join(a);
    }
    else vh_die("unknown op");
}
static void one(int ac, char** av)
{
    if (!strcmp(av[0], "pf"))        /* pf call: it fails in the next op */
    {
        fail_next = NULL;
        for (size_t i = 0; i < sizeof calls / sizeof *calls; ++i)
            if (!strcmp(av[1], calls[i])) fail_next = calls[i];
        return;
    }
    failed = NULL;
    /* a join that has to wait is not made to fail. */
    if (fail_next && !strcmp(fail_next, "join") && !strcmp(av[0], "jn"))
    {
        int a = atoi(av[1]);
        if (a >= NT || !w[a].exited || w[a].busy) fail_next = NULL;
    }
    const char* f = alloc ? fail_next : NULL;
    fail_next = f;
    step(ac, av);
    fail_next = NULL; failed = NULL;
}
static void call(const char* op, int a, int b)
{
    char x[16], y[16]; char* av[] = { (char*)op, x, y };
    snprintf(x, 16, "%d", a); snprintf(y, 16, "%d", b);
    one(3, av);
}
static void finish(void)
{
    if (!alloc) { ev_open("end"); ev_int("live", 0); ev_int("rc", 0);
                  ev_int("bal", 0); ev_close(); return; }
    for (int r = 0; r < 240; ++r)
    {
        int busy = 0, acted = 0;
        for (int m = NM - 1; m >= 0; --m)
            while (holder(m) >= 0 && !w[holder(m)].busy)
            { call("ul", m, 0); acted = 1; if (++r > 240) break; }
        for (int c = 0; c < NC; ++c)
        {
            int ws = 0;
            for (int t = 0; t < NT; ++t)
                if (w[t].busy && w[t].cmd == CWAIT && w[t].arg == c) ws = 1;
            if (!ws || holder(MOF(c)) >= 0) continue;
            if (nth_idle(0, MOF(c)) < 0)
            {
                int t = 0;
                while (t < NT && w[t].th) ++t;
                if (t == NT) break;
                char x[8]; char* av[] = { "tn", x };
                snprintf(x, 8, "%d", t); one(2, av);
            }
            call("lk", MOF(c), 0);
            if (holder(MOF(c)) >= 0) call("sa", c, 0);
            acted = 1;
        }
        for (int t = 0; t < NT; ++t) busy |= w[t].busy;
        if (!busy && !acted) break;
    }
    for (int t = 0; t < NT; ++t)
        if (idle(t)) { w[t].exited = 1; give(t, CEXIT, 0); }
    for (int t = 0; t < NT; ++t)
        if (w[t].th && !jn[t].busy) join(t);
    int rc = 0;
    for (int t = 0; t < NT; ++t) if (w[t].busy || w[t].th || jn[t].busy) rc = 1;
    if (!rc)
    {
        for (int i = 0; i < NM; ++i)
            if (resource_release(thread_mutex_resource_handle(mx[i]))) rc = 2;
        for (int i = 0; i < NC; ++i)
            if (resource_release(thread_cond_resource_handle(cv[i]))) rc = 3;
        if (resource_release(allocator_resource_handle(alloc))) rc = 4;
    }
    ev_open("end"); ev_int("rc", rc); ev_int("live", vh_live);
    ev_int("bal", bal); ev_close();
}
void vh_script_begin(void) { }
void vh_op(int ac, char** av) { vh_defer(ac, av); }
void vh_script_end(void) { vh_run_forked(&one, &finish); }
