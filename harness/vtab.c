/* Driver for method tables: one object of every kind the library makes that
 * has one.  Tables are exchanged for forged ones, every method that goes
 * through a table is called, and what was called and what changed is told. */
#include "vh.h"
#include <rcpr/allocator.h>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/compare.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/psock.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/stack.h>
#include <rcpr/thread.h>
#include <sys/socket.h>
#include <unistd.h>
#include <fcntl.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_auto_reset_trigger;
RCPR_IMPORT_bigint;
RCPR_IMPORT_compare;
RCPR_IMPORT_fiber;
RCPR_IMPORT_list;
RCPR_IMPORT_message;
RCPR_IMPORT_psock;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_resource;
RCPR_IMPORT_slist;
RCPR_IMPORT_stack;
RCPR_IMPORT_thread;
RCPR_IMPORT_uuid;
#include "ualloc.h"
#include "forge.h"

static const char* kinds[] = {
    "malloc", "bump", "user", "trigger", "bigint", "fiber", "sched", "disc",
    "list", "slist", "queue", "tree", "message", "desc", "buffer", "br",
    "methods", "stack", "mutex", "lock", "cond", "thread", NULL };
#define NK 22
enum { MALLOC, BUMP, USER, TRIGGER, BIGINT, FIBER, SCHED, DISC, LIST, SLIST,
       QUEUE, TREE, MESSAGE, DESC, BUFFER, BR, METHODS, STACK, MUTEX, LOCK,
       COND, THREAD };
/* what an object needs that is not the object: released after it. */
static struct { resource *r, *aux; void *p; const resource_vtable* kept; } ob[NK];
static int sv[2];

static status fib_fn(void* c) { (void)c; return 0; }
static status th_fn(void* c) { (void)c; return 0; }
static status disc_cb(void* c, fiber* f, int e, void* p)
{ (void)c; (void)f; (void)e; (void)p; return 0; }
static rcpr_comparison_result cmp(void* c, const void* x, const void* y)
{ (void)c; (void)x; (void)y; return RCPR_COMPARE_EQ; }
static const void* keyof(void* c, const resource* r) { (void)c; return r; }
static status m_read(psock* s, void* c, void* d, size_t* n, bool b)
{ (void)s; (void)c; (void)d; (void)b; *n = 0; return 0; }
static status m_write(psock* s, void* c, const void* d, size_t* n)
{ (void)s; (void)c; (void)d; (void)n; return 0; }
RCPR_VTABLE RCPR_SYM(psock_vtable) methods = {
    .read_fn = &m_read, .write_fn = &m_write };
static char region[4096] __attribute__((aligned(16)));
static const rcpr_uuid did = { .data = { 1, 2, 3 } };

static status make(int k)
{
    allocator* a = ua_get(0);
    status s = 0;
#define MAKE(T, call) { T* x = NULL; LIB(s = call); \
        if (!s) { ob[k].p = x; ob[k].r = T ## _resource_handle(x); } break; }
    switch (k)
    {
    case MALLOC: MAKE(allocator, malloc_allocator_create(&x))
    case BUMP: MAKE(allocator, bump_allocator_create(&x, region, sizeof region))
    case USER: ob[k].p = ua_get(1); ob[k].r = &ua[1].hdr; break;
    case TRIGGER: MAKE(auto_reset_trigger, auto_reset_trigger_create(&x, a))
    case BIGINT: MAKE(bigint, bigint_create_zero(&x, a, 128))
    case SCHED: MAKE(fiber_scheduler, fiber_scheduler_create_with_disciplines(&x, a))
    case FIBER:
    {
        fiber_scheduler* sc = NULL;
        if (fiber_scheduler_create_with_disciplines(&sc, a)) vh_lib("scheduler");
        ob[k].aux = fiber_scheduler_resource_handle(sc);
        MAKE(fiber, fiber_create(&x, a, sc, 65536, NULL, &fib_fn))
    }
    case DISC:
    {
        fiber_scheduler_discipline_callback_fn v[1] = { &disc_cb };
        MAKE(fiber_scheduler_discipline,
             fiber_scheduler_discipline_create(&x, &did, a, NULL, 1, v))
    }
    case LIST: MAKE(list, list_create(&x, a))
    case SLIST: MAKE(slist, slist_create(&x, a))
    case QUEUE: MAKE(queue, queue_create(&x, a))
    case TREE: MAKE(rbtree, rbtree_create(&x, a, &cmp, &keyof, NULL))
    case MESSAGE: MAKE(message, message_create(&x, a, 3, NULL))
    case DESC:
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) vh_die("socketpair");
        MAKE(psock, psock_create_from_descriptor(&x, a, sv[0]))
    case BUFFER: MAKE(psock, psock_create_from_buffer(&x, a, "abc", 3))
    case METHODS: MAKE(psock, psock_create_from_user_methods(&x, a, NULL, &methods))
    case BR:
    {
        psock* b = NULL;
        if (psock_create_from_buffer(&b, a, "abc", 3)) vh_lib("buffer");
        ob[k].aux = psock_resource_handle(b);
        MAKE(psock_br, psock_br_create_from_psock(&x, a, b))
    }
    case STACK: MAKE(stack, stack_create(&x, a, 65536))
    case MUTEX: MAKE(thread_mutex, thread_mutex_create(&x, a))
    case COND: MAKE(thread_cond, thread_cond_create(&x, a))
    case LOCK:
    {
        thread_mutex* m = NULL;
        if (thread_mutex_create(&m, a)) vh_lib("mutex");
        ob[k].aux = thread_mutex_resource_handle(m);
        MAKE(thread_mutex_lock, thread_mutex_lock_acquire(&x, m))
    }
    case THREAD: MAKE(thread, thread_create(&x, a, 65536, NULL, &th_fn))
    default: vh_die("kind");
    }
    return s;
}

static int kind(const char* s)
{
    for (int k = 0; k < NK; ++k) if (!strcmp(s, kinds[k])) return k;
    vh_die("kind");
    return 0;
}
static long held(void) { return nblk + vh_live; }
static void outcome(const char* op, int k, status s, long was)
{
    ev_open(op); ev_str("k", kinds[k]); ev_status(s); ev_int("fc", fcalls);
    ev_int("d", held() - was);
    ev_close();
    fcalls = 0;
}

void vh_script_begin(void)
{
    memset(ob, 0, sizeof ob); sv[0] = sv[1] = -1; fcalls = 0;
    ua_begin();
}
void vh_op(int ac, char** av)
{
    const char* op = av[0];
    fg_allowed();
    int k = kind(av[1]);
    long was = held();
    status s = 0;
    if (!strcmp(op, "make"))
    {
        if (ob[k].r) vh_diverged("one of each");
        s = make(k);
        ev_open(op); ev_str("k", av[1]); ev_status(s); ev_int("fc", fcalls); ev_close();
        return;
    }
    if (!ob[k].r) vh_diverged("no such object");
    if (!strcmp(op, "forge"))
    {
        if (ob[k].kept) vh_diverged("forged already");
        ob[k].kept = ob[k].r->vtable;
        ob[k].r->vtable = forged_table(atoi(av[2]));
        outcome(op, k, 0, was);
    }
    else if (!strcmp(op, "mend"))
    {
        if (!ob[k].kept) vh_diverged("not forged");
        ob[k].r->vtable = ob[k].kept; ob[k].kept = NULL;
        outcome(op, k, 0, was);
    }
    else if (!strcmp(op, "release"))
    {
        LIB(s = resource_release(ob[k].r));
        int gone = !s;
        ev_open(op); ev_str("k", av[1]); ev_status(s); ev_int("fc", fcalls);
        ev_int("d", s ? held() - was : 0);
        ev_int("open", sv[0] >= 0 && fcntl(sv[0], F_GETFD) >= 0); ev_close();
        fcalls = 0;
        if (!gone) return;
        if (ob[k].aux && resource_release(ob[k].aux)) vh_lib("release");
        if (k == DESC) { close(sv[1]); sv[0] = sv[1] = -1; }
        memset(&ob[k], 0, sizeof ob[k]);
    }
    else if (!strcmp(op, "vt"))         /* look the table up */
    {
        const resource_vtable can = { 0 };
        const resource_vtable* v = &can;
        LIB(s = resource_vtable_read(&v, ob[k].r));
        ev_open(op); ev_str("k", av[1]); ev_status(s); ev_int("fc", fcalls);
        ev_int("d", held() - was);
        ev_int("got", v == ob[k].r->vtable); ev_int("same", v == &can);
        ev_close();
    }
    else if (!strcmp(op, "call"))       /* call KIND alloc|realloc|reclaim|control */
    {   /* an allocator's methods, on a block that it made before if need be. */
        allocator* a = ob[k].p;
        void *b = NULL, *q; const resource_vtable* v = ob[k].r->vtable;
        if (k > USER) vh_die("not an allocator");
        if (av[2][0] == 'r')
        {
            if (ob[k].kept) ob[k].r->vtable = ob[k].kept;
            if (allocator_allocate(a, &b, 32)) vh_lib("allocate");
            memset(b, 0x5A, 32);
            ob[k].r->vtable = v;
        }
        was = held(); q = b;
        if (av[2][0] == 'a') LIB(s = allocator_allocate(a, &q, 32));
        else if (!strcmp(av[2], "realloc")) LIB(s = allocator_reallocate(a, &q, 48));
        else if (!strcmp(av[2], "reclaim")) LIB(s = allocator_reclaim(a, q));
        else LIB(s = allocator_control(a, 0x7777, NULL, 0));
        long d = held() - was;
        ev_open(op); ev_str("k", av[1]); ev_str("m", av[2]); ev_status(s);
        ev_int("fc", fcalls); ev_int("same", q == b);
        /* what was in the block is there still, wherever it is now. */
        int keeps = 1;
        if (!strcmp(av[2], "realloc") || (s && av[2][0] == 'r'))
            for (int i = 0; i < 32; ++i) keeps &= ((unsigned char*)q)[i] == 0x5A;
        ev_int("keeps", keeps); ev_int("d", d); ev_close();
        fcalls = 0;
        /* dispose of the block. */
        if (ob[k].kept) ob[k].r->vtable = ob[k].kept;
        if (q && (strcmp(av[2], "reclaim") || s) && allocator_reclaim(a, q))
            vh_lib("reclaim");
        ob[k].r->vtable = v;
    }
    else vh_die(op);
}
void vh_script_end(void)
{
    for (int k = NK - 1; k >= 0; --k)
    {
        if (!ob[k].r) continue;
        char *m[2] = { "mend", (char*)kinds[k] }, *f[2] = { "release", (char*)kinds[k] };
        if (ob[k].kept) vh_op(2, m);
        vh_op(2, f);
    }
    ev_open("end"); ev_int("live", vh_live); ev_int("blocks", nblk);
    ev_int("foreign", foreign); ev_int("fc", fcalls); ev_close();
}
