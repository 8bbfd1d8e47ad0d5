/* Driver for making and letting go of whole objects when memory cannot be
 * had, or cannot be handed back.  "make KIND R": the R-th block handed back
 * while making it (0: none) is refused; "free KIND R": likewise for letting
 * it go.  A third number: the so-manieth call to the system fails.  (The block is gone all the same; only the status says so.) */
#include "vh.h"
#include <rcpr/allocator.h>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/compare.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/psock.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/stack.h>
#include <rcpr/thread.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <unistd.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_auto_reset_trigger;
RCPR_IMPORT_bigint;
RCPR_IMPORT_compare;
RCPR_IMPORT_condition;
RCPR_IMPORT_fiber;
RCPR_IMPORT_list;
RCPR_IMPORT_message;
RCPR_IMPORT_psock;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_resource;
RCPR_IMPORT_slist;
RCPR_IMPORT_stack;
RCPR_IMPORT_thread;
RCPR_IMPORT_uuid;
#include "ualloc.h"

/* the n-th call to the system in an operation fails; those that hand back
 * have done their work all the same. */
static int sysfail, sysfailed;
static int fails(void)
{ if (sysfail && !--sysfail) return sysfailed = 1; return 0; }
#define SYS(F, P, A, back) \
    extern int __real_##F P; \
    int __wrap_##F P \
    { \
        if (back) { int r_ = __real_##F A; return fails() ? EBUSY : r_; } \
        if (fails()) { errno = EAGAIN; return EAGAIN; } \
        return __real_##F A; \
    }
SYS(pthread_mutex_init, (pthread_mutex_t* m, const pthread_mutexattr_t* x), (m, x), 0)
SYS(pthread_mutex_lock, (pthread_mutex_t* m), (m), 0)
SYS(pthread_mutex_destroy, (pthread_mutex_t* m), (m), 1)
SYS(pthread_cond_init, (pthread_cond_t* m, const pthread_condattr_t* x), (m, x), 0)
SYS(pthread_cond_destroy, (pthread_cond_t* m), (m), 1)
SYS(pthread_attr_init, (pthread_attr_t* m), (m), 0)
SYS(pthread_attr_setstacksize, (pthread_attr_t* m, size_t n), (m, n), 0)
SYS(pthread_create, (pthread_t* t, const pthread_attr_t* m, void* (*f)(void*), void* c),
    (t, m, f, c), 0)
SYS(pthread_join, (pthread_t t, void** v), (t, v), 1)
extern int __real_epoll_create1(int), __real_fcntl(int, int, long);
int __wrap_epoll_create1(int f)
{ if (fails()) { errno = EMFILE; return -1; } return __real_epoll_create1(f); }
int __wrap_fcntl(int fd, int c, long x)
{
    if ((c == F_GETFL || c == F_SETFL) && fails()) { errno = EBADF; return -1; }
    return __real_fcntl(fd, c, x);
}

#define STK 65536
static allocator* a;
static resource *obj, *aux[4];  /* what is let go, then what it was made of */
static int naux, fds0, sv[2];
static fiber_scheduler* sch;
static fiber_scheduler_discipline *md, *cd;

static status th_fn(void* c) { (void)c; return 0; }
static status disc_cb(void* c, fiber* f, int e, void* p)
{ (void)c; (void)f; (void)e; (void)p; return 0; }
static rcpr_comparison_result cmp(void* c, const void* x, const void* y)
{ (void)c; return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static const void* keyof(void* c, const resource* r) { (void)c; return r; }
static status m_read(psock* s, void* c, void* d, size_t* n, bool b)
{ (void)s; (void)c; (void)d; (void)b; *n = 0; return 0; }
static status m_write(psock* s, void* c, const void* d, size_t* n)
{ (void)s; (void)c; (void)d; (void)n; return 0; }
RCPR_VTABLE RCPR_SYM(psock_vtable) methods = {
    .read_fn = &m_read, .write_fn = &m_write };
static const rcpr_uuid did = { .data = { 1, 2, 3 } };

/* fibers that wait for ever: in a mailbox, on a conditional, or just yield. */
static mailbox_address mbox; static conditional con;
static status fib_rcv(void* c)
{ (void)c; message* m = NULL; (void)message_receive(mbox, &m, md); return 0; }
static status fib_cnw(void* c) { (void)c; (void)conditional_wait(con, cd); return 0; }
static status fib_yield(void* c)
{
    const rcpr_uuid* id; int e; void* p; (void)c;
    for (;;)
        if (fiber_scheduler_yield(sch, FIBER_SCHEDULER_YIELD_EVENT_RUN, NULL,
                                  &id, &e, &p)) break;
    return 0;
}
static status fib_end(void* c) { (void)c; return 0; }

static int open_fds(void)
{
    int n = 0;
    for (int fd = 3; fd < 200; ++fd) n += fcntl(fd, F_GETFD) >= 0;
    return n;
}
/* Entries of a queue that only borrows them (fibers that are to run, or that
 * wait) must outlive it; popping such an entry is not refused, unless "+" is
 * given (see known_findings.txt). */
#define JOIN_(x, y) x ## y
#define JOIN(x, y) JOIN_(x, y)
static int all; static resource* mine[64]; static int nmine;
extern status JOIN(__real_, RCPR_SYM(slist_pop))(slist*, resource**);
status JOIN(__wrap_, RCPR_SYM(slist_pop))(slist* q, resource** r)
{
    slist_node* n = NULL; resource* c = NULL; int save = ua_refuse;
    if (!slist_head(&n, q) && n && slist_node_child(&c, n)) c = NULL;
    for (int i = 0; i < nmine; ++i) if (mine[i] == c) c = NULL;
    if (c && !all) ua_refuse = 0;
    status s = JOIN(__real_, RCPR_SYM(slist_pop))(q, r);
    if (c && !all) ua_refuse = save;
    return s;
}
static int is(const char* x, const char* y) { return !strcmp(x, y); }
#define TRY(call) do { status s_ = (call); if (s_) return s_; } while (0)
#define MUST(call) do { if (call) vh_lib(#call); } while (0)
static psock* inner; static bigint* orig;
static fiber* newf; static fiber_scheduler_discipline* newd; /* not yet added */
static char big[9000];
/* what a kind is made of beforehand, not under test. */
static void before(const char* k)
{
    naux = 0; sch = NULL; md = cd = NULL;
    if (is(k, "wrap") || is(k, "wwrap") || is(k, "fiber") || is(k, "msgdisc")
     || is(k, "conddisc") || is(k, "mailbox") || is(k, "conditional"))
    {
        MUST(fiber_scheduler_create_with_disciplines(&sch, a));
        aux[naux++] = fiber_scheduler_resource_handle(sch);
    }
    if (is(k, "mailbox")) MUST(message_discipline_get_or_create(&md, a, sch));
    if (is(k, "conditional")) MUST(condition_discipline_get_or_create(&cd, a, sch));
    if (is(k, "addfiber") || is(k, "adddisc"))
    {
        fiber_scheduler_discipline_callback_fn v[2] = { &disc_cb, &disc_cb };
        MUST(fiber_scheduler_create_with_disciplines(&sch, a));
        aux[naux++] = fiber_scheduler_resource_handle(sch);
        if (is(k, "addfiber"))
            MUST(fiber_create(&newf, a, sch, STK, NULL, &fib_end));
        else
            MUST(fiber_scheduler_discipline_create(&newd, &did, a, NULL, 2, v));
    }
    if (is(k, "write") || is(k, "write1") || is(k, "out"))
    {
        size_t n = 9000;
        MUST(psock_create_from_buffer(&inner, a, NULL, 0));
        if (!is(k, "write")) MUST(psock_write_raw_data(inner, big, n));
    }
    if (is(k, "shortraw"))
        MUST(psock_create_from_buffer(&inner, a, "abc", 3));
    if (is(k, "shortbox") || is(k, "shortstr"))
        MUST(psock_create_from_buffer(&inner, a,
             is(k, "shortbox") ? "\0\0\0\x22\0\0\0\7xyz"
                               : "\0\0\0\x20\0\0\0\7xyz", 11));
    if (is(k, "clone"))
    {
        MUST(bigint_create_zero(&orig, a, 256));
        aux[naux++] = bigint_resource_handle(orig);
    }
    if (is(k, "lock"))
    {
        thread_mutex* m = NULL; MUST(thread_mutex_create(&m, a));
        aux[naux++] = thread_mutex_resource_handle(m);
    }
    if (is(k, "desc") || is(k, "wrap") || is(k, "br") || is(k, "wbr")
     || is(k, "wwrap"))
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) vh_die("socketpair");
    if (is(k, "wrap") || is(k, "br"))
        MUST(psock_create_from_descriptor(&inner, a, sv[0]));
    if (is(k, "string"))
        MUST(psock_create_from_buffer(&inner, a,
             "\0\0\0\x22\0\0\0\3xyz", 11));
}
static status message_with(message** m, int id)
{
    resource* r = tres_new(id, id);
    status s = message_create(m, a, 3, r);
    if (s) { tres_drop(r); return s; }
    if (nmine >= 64) vh_die("messages");
    mine[nmine++] = message_resource_handle(*m);
    return s;
}
/* make it: whatever was made is released by the library if it fails. */
static status make(const char* k)
{
#define ONE(T, call) { T* x = NULL; TRY(call); \
        obj = T ## _resource_handle(x); return 0; }
    if (is(k, "trigger")) ONE(auto_reset_trigger, auto_reset_trigger_create(&x, a))
    if (is(k, "clone")) ONE(bigint, bigint_clone(&x, a, orig))
    if (is(k, "bigint")) ONE(bigint, bigint_create_zero(&x, a, 128))
    if (is(k, "stack")) ONE(stack, stack_create(&x, a, STK))
    if (is(k, "mutex")) ONE(thread_mutex, thread_mutex_create(&x, a))
    if (is(k, "cond")) ONE(thread_cond, thread_cond_create(&x, a))
    if (is(k, "lock")) ONE(thread_mutex_lock, thread_mutex_lock_acquire(
        &x, (thread_mutex*)aux[0]))
    if (is(k, "thread")) ONE(thread, thread_create(&x, a, STK, NULL, &th_fn))
    if (is(k, "disc"))
    {
        fiber_scheduler_discipline_callback_fn v[2] = { &disc_cb, &disc_cb };
        ONE(fiber_scheduler_discipline,
            fiber_scheduler_discipline_create(&x, &did, a, NULL, 2, v))
    }
    if (is(k, "sched")) ONE(fiber_scheduler, fiber_scheduler_create_with_disciplines(&x, a))
    if (is(k, "fiber")) ONE(fiber, fiber_create(&x, a, sch, STK, NULL, &fib_end))
    if (is(k, "list")) ONE(list, list_create(&x, a))
    if (is(k, "slist")) ONE(slist, slist_create(&x, a))
    if (is(k, "queue")) ONE(queue, queue_create(&x, a))
    if (is(k, "tree")) ONE(rbtree, rbtree_create(&x, a, &cmp, &keyof, NULL))
    if (is(k, "message"))
    { message* m = NULL; TRY(message_with(&m, 1)); obj = message_resource_handle(m); return 0; }
    if (is(k, "buffer")) ONE(psock, psock_create_from_buffer(&x, a, "abc", 3))
    if (is(k, "output")) ONE(psock, psock_create_from_buffer(&x, a, NULL, 0))
    if (is(k, "methods")) ONE(psock, psock_create_from_user_methods(&x, a, NULL, &methods))
    if (is(k, "desc"))
    {
        psock* x = NULL; TRY(psock_create_from_descriptor(&x, a, sv[0]));
        obj = psock_resource_handle(x); return 0;
    }
    if (is(k, "br"))
    {
        psock_br* x = NULL; TRY(psock_br_create_from_psock(&x, a, inner));
        obj = psock_br_resource_handle(x); return 0;
    }
    if (is(k, "wrap"))
    {
        psock* x = NULL; fiber* f = NULL;
        MUST(disciplined_fiber_scheduler_main_fiber_get(&f, sch));
        TRY(psock_create_wrap_async(&x, a, f, inner));
        obj = psock_resource_handle(x); inner = NULL; return 0;
    }
    if (is(k, "msgdisc")) return message_discipline_get_or_create(&md, a, sch);
    if (is(k, "conddisc")) return condition_discipline_get_or_create(&cd, a, sch);
    if (is(k, "mailbox")) return mailbox_create(&mbox, md);
    if (is(k, "conditional")) return conditional_create(&con, cd);
    if (is(k, "string"))
    {   /* memory of the caller's, given by a read. */
        void* p = NULL; size_t n = 0;
        TRY(psock_read_boxed_data(inner, a, &p, &n));
        return allocator_reclaim(a, p);
    }
    if (is(k, "addfiber"))
    { TRY(fiber_scheduler_add(sch, newf)); newf = NULL; return 0; }
    if (is(k, "adddisc"))
    { TRY(fiber_scheduler_discipline_add(sch, newd)); newd = NULL; return 0; }
    if (is(k, "write") || is(k, "write1"))
    { size_t n = sizeof big; return psock_write_raw_data(inner, big, n); }
    if (is(k, "out") || is(k, "shortraw") || is(k, "shortbox") || is(k, "shortstr"))
    {
        void* p = NULL; char* q = NULL; size_t n = 0;
        TRY(is(k, "out") ? psock_from_buffer_get_output_buffer(inner, a, &p, &n)
          : is(k, "shortraw") ? psock_read_raw_data(inner, a, &p, 9)
          : is(k, "shortbox") ? psock_read_boxed_data(inner, a, &p, &n)
          : psock_read_boxed_string(inner, a, &q, &n));
        return allocator_reclaim(a, p ? p : q);
    }
    vh_die("kind");
    return 0;
}
/* whole worlds, of which only the release is under test. */
static fiber* spawn(fiber_fn fn)
{
    fiber* f = NULL;
    MUST(fiber_create(&f, a, sch, STK, NULL, fn));
    MUST(fiber_scheduler_add(sch, f));
    return f;
}
static void build(const char* k, int n)
{
    message* m; int id = 10;
    if (is(k, "wlist") || is(k, "wslist") || is(k, "wqueue") || is(k, "wtree"))
    {
        list* l = NULL; slist* s = NULL; queue* q = NULL; rbtree* t = NULL;
        if (is(k, "wlist")) { MUST(list_create(&l, a)); obj = list_resource_handle(l); }
        if (is(k, "wslist")) { MUST(slist_create(&s, a)); obj = slist_resource_handle(s); }
        if (is(k, "wqueue")) { MUST(queue_create(&q, a)); obj = queue_resource_handle(q); }
        if (is(k, "wtree"))
        { MUST(rbtree_create(&t, a, &cmp, &keyof, NULL)); obj = rbtree_resource_handle(t); }
        while (n--)
        {
            m = NULL; MUST(message_with(&m, id++));
            resource* r = message_resource_handle(m);
            MUST(l ? list_append_tail(l, r) : s ? slist_append_tail(s, r)
                 : q ? queue_append(q, r) : rbtree_insert(t, r));
        }
    }
    else if (is(k, "wmessage"))
    {
        m = NULL; MUST(message_with(&m, id++));
        while (n--)
        {
            message* o = NULL;
            MUST(message_create(&o, a, 1, message_resource_handle(m))); m = o;
        }
        obj = message_resource_handle(m);
    }
    else if (is(k, "woutput"))
    {
        psock* x = NULL;
        MUST(psock_create_from_buffer(&x, a, NULL, 0));
        while (n--) MUST(psock_write_raw_data(x, big, sizeof big));
        obj = psock_resource_handle(x);
    }
    else if (is(k, "wbr") || is(k, "wwrap"))
    {
        psock *x = NULL, *w = NULL; psock_br* b = NULL; fiber* f = NULL;
        MUST(psock_create_from_descriptor(&x, a, sv[0]));
        if (is(k, "wwrap"))
        {
            MUST(disciplined_fiber_scheduler_main_fiber_get(&f, sch));
            MUST(psock_create_wrap_async(&w, a, f, x)); x = w;
        }
        MUST(psock_br_create_from_psock(&b, a, x));
        aux[naux++] = psock_resource_handle(x);
        obj = psock_br_resource_handle(b);
    }
    else if (is(k, "wsched"))
    {   /* fibers new, waiting in mailboxes and on conditionals, running and
         * ended; messages nobody took; an idle fiber; handlers. */
        MUST(fiber_scheduler_create_with_disciplines(&sch, a));
        obj = fiber_scheduler_resource_handle(sch);
        mailbox_address b2;
        if (n & 1)
        {
            MUST(message_discipline_get_or_create(&md, a, sch));
            MUST(mailbox_create(&mbox, md)); MUST(mailbox_create(&b2, md));
            for (int i = 0; i < 3; ++i)
            {
                m = NULL; MUST(message_with(&m, id++));
                MUST(message_send(b2, m, md));
            }
            spawn(&fib_rcv);
        }
        if (n & 2)
        {
            MUST(condition_discipline_get_or_create(&cd, a, sch));
            MUST(conditional_create(&con, cd));
            spawn(&fib_cnw); spawn(&fib_cnw);
        }
        if (n & 4)
        {
            psock *x = NULL, *w = NULL; fiber* f = NULL;
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) vh_die("socketpair");
            MUST(disciplined_fiber_scheduler_main_fiber_get(&f, sch));
            MUST(psock_create_from_descriptor(&x, a, sv[0]));
            MUST(psock_create_wrap_async(&w, a, f, x));
            MUST(resource_release(psock_resource_handle(w)));
        }
        if (n & 8) { spawn(&fib_yield); spawn(&fib_end); }
        if (n & 15) MUST(fiber_scheduler_run(sch));
        if (n & 16) spawn(&fib_end);
    }
    else vh_die("world");
}

static int refusal(char** av, int ac)
{
    sysfail = ac > 3 ? atoi(av[3]) : 0;
    all = *av[2] == '+';
    return atoi(av[2]);
}
void vh_script_begin(void)
{
    signal(SIGPIPE, SIG_IGN);
    ua_begin(); a = ua_get(0); fds0 = open_fds();
    newf = NULL; newd = NULL; obj = NULL; inner = NULL; naux = 0; sch = NULL; md = cd = NULL;
    all = nmine = 0; sv[0] = sv[1] = -1;
}
static void done(const char* op, const char* k, status s)
{
    ev_open(op); ev_str("k", k); ev_status(s); ev_oom();
    ev_int("refused", ua_refused); ev_int("sys", sysfailed);
    ua_refuse = ua_refused = sysfail = sysfailed = 0;
}
void vh_op(int ac, char** av)
{
    status s;
    if (ac < 3) vh_die("arguments");
    if (is(av[0], "make"))
    {
        if (obj || naux || inner) vh_diverged("one at a time");
        before(av[1]);
        long was = nblk;
        ua_refuse = refusal(av, ac);
        LIB(s = make(av[1]));
        if (s && is(av[1], "desc")) { close(sv[0]); sv[0] = -1; } /* still ours */
        done("make", av[1], s); ev_int("d", nblk - was); ev_close();
    }
    else if (is(av[0], "build"))
    {
        if (obj || naux) vh_diverged("one at a time");
        before(av[1]);
        build(av[1], atoi(av[2]));
        done("build", av[1], 0); ev_close();
    }
    else if (is(av[0], "again"))    /* another of the kind, in the same world */
    {
        if (obj || (inner && is(av[1], "string"))) vh_diverged("made already");
        long was = nblk;
        ua_refuse = refusal(av, ac);
        LIB(s = make(av[1]));
        done("make", av[1], s); ev_int("d", nblk - was); ev_close();
    }
    else if (is(av[0], "free"))
    {   /* what it is made of follows, unrefused unless part of it. */
        resource* r = obj;
        ua_refuse = refusal(av, ac);
        if (!r && naux && !inner && !newf && !newd) r = aux[--naux];
        if (!r) { ev_open("none"); ev_close(); ua_refuse = sysfail = 0; return; }
        obj = NULL;
        LIB(s = resource_release(r));
        done("free", av[1], s); ev_close();
    }
    else vh_die(av[0]);
}
void vh_script_end(void)
{
    if (obj) MUST(resource_release(obj));
    if (inner) MUST(resource_release(psock_resource_handle(inner)));
    if (newf) MUST(resource_release(fiber_resource_handle(newf)));
    if (newd)
        MUST(resource_release(fiber_scheduler_discipline_resource_handle(newd)));
    while (naux) MUST(resource_release(aux[--naux]));
    int late = sv[0] >= 0 && fcntl(sv[0], F_GETFD) >= 0;
    if (sv[1] >= 0) close(sv[1]);
    ev_open("end"); ev_int("blocks", nblk); ev_int("live", vh_live);
    ev_int("foreign", foreign); ev_int("late", late);
    ev_int("fds", open_fds() - fds0); ev_rel(); ev_close();
    if (late) close(sv[0]);
}
