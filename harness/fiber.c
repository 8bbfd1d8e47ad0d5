/* Driver for the fiber scheduler, its management discipline, user
 * disciplines, mailboxes (rcpr/message.h) and conditionals
 * (rcpr/condition.h).
 *
 * The script is one list of operations "op a b c d"; whichever fiber is
 * running takes the next one.  Every operation yields one event: what was
 * done by whom (op, f, a..d), and what was observed next - which fiber (g)
 * got control, by starting or by returning from its own call (k), with what
 * result (r). */
#include "vh.h"
#include <rcpr/allocator.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/fiber/disciplines/condition.h>
#include <rcpr/fiber/disciplines/message.h>
#include <rcpr/message.h>
#include <rcpr/uuid.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_condition;
RCPR_IMPORT_fiber;
RCPR_IMPORT_message;
RCPR_IMPORT_resource;
RCPR_IMPORT_uuid;

#define NF 44
#define ND 6
#define STACK 131072
#define MAXOPS 4096

static allocator* alloc;
static fiber_scheduler* sched;
static fiber_scheduler_discipline *msgd, *cond;
static fiber* fib[NF];          /* by id; 0 is the main fiber */
static int held[NF];            /* 1: the driver owns it */
static fiber_scheduler_discipline* dsc[ND];
static int dheld[ND];
static rcpr_uuid uu[10];
static int hid[4] = { 0, 1, 2, 3 };   /* handler contexts */

struct op { char name[8]; long a, b, c, d; int arm; };
static struct op ops[MAXOPS];
static int nops, pc;
static struct op P; static int Pf;    /* the operation in progress */
static char cbs[1024];
static char R[1024];                  /* its result, as JSON fields */

static int fid(const void* p)
{
    for (int i = 0; i < NF; ++i) if (fib[i] && fib[i] == p) return i;
    return -1;
}
static const char* dname(const rcpr_uuid* u)
{
    static char t[16];
    if (!u) return "null";
    if (!memcmp(u, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16)) return "mgmt";
    if (!memcmp(u, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, 16)) return "msg";
    if (!memcmp(u, &FIBER_SCHEDULER_CONDITION_DISCIPLINE, 16)) return "cond";
    for (int i = 1; i < 9; ++i)
        if (!memcmp(u, &uu[i], 16)) { sprintf(t, "u%d", i); return t; }
    return "int";
}
static void info(const rcpr_uuid* u, int e, void* p)
{
    const char* d = dname(u);
    char en[24], pn[32];
    if (!strcmp(d, "int"))
    {
        const char* n = e == FIBER_SCHEDULER_RESUME_EVENT_MAIN ? "main"
            : e == FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER ? "add"
            : e == FIBER_SCHEDULER_RESUME_EVENT_RUN ? "run"
            : e == FIBER_SCHEDULER_RESUME_EVENT_IDLE ? "idle" : "?";
        strcpy(en, n); strcpy(pn, p ? "?" : "nil");
    }
    else if (!strcmp(d, "mgmt"))
    {
        static const char* n[] =
            { "add", "stop", "quiesce", "terminate", "result" };
        strcpy(en, e >= 0 && e < 5 ? n[e] : "?");
        if (e == 0 || e == 1) sprintf(pn, "f%d", fid(p));
        else if (e == 4) strcpy(pn, vh_status_name((status)(intptr_t)p));
        else strcpy(pn, p ? "?" : "nil");
    }
    else
    {
        sprintf(en, "c%d", e); sprintf(pn, "i%ld", (long)(intptr_t)p);
    }
    sprintf(R + strlen(R), ",\"d\":\"%s\",\"e\":\"%s\",\"p\":\"%s\"", d, en,
            pn);
}
static void rst(status s) { sprintf(R, "\"st\":\"%s\"", vh_status_name(s)); }

/* control is back in fiber g: write the event of the operation. */
static void observe(int g, const char* k)
{
    static char o[2048];
    vh_fail_at = 0; vh_arm_next = 0;
    ev_open(P.name); ev_int("f", Pf);
    ev_int("a", P.a); ev_int("b", P.b); ev_int("c", P.c); ev_int("d", P.d);
    ev_oom(); ev_int("g", g); ev_str("k", k);
    fiber* c = NULL;
    if (disciplined_fiber_scheduler_current_fiber_get(&c, sched)) vh_lib("cur");
    ev_int("cur", fid(c));
    snprintf(o, sizeof o, "{%s}", R); ev_raw("r", o);
    snprintf(o, sizeof o, "[%s]", cbs); ev_raw("cb", o);
    ev_rel(); ev_close();
    R[0] = 0; cbs[0] = 0;
}

/* ---- user disciplines: the callbacks do as the caller's request says. */
struct req { int beh, x, n; fiber_scheduler_discipline* d; int uuid; };
static status callback(int i, void* ctx, fiber* y, int ev, void* param)
{
    struct req* q = param;
    const rcpr_uuid* id = &uu[q->uuid];
    void* n = (void*)(intptr_t)q->n;
    status s = STATUS_SUCCESS;
    (void)ev;
    sprintf(cbs + strlen(cbs), "%s[%d,%d,%d]", cbs[0] ? "," : "",
            (int)(intptr_t)ctx, i, fid(y));
    switch (q->beh)
    {
        case 0:
            return disciplined_fiber_scheduler_set_next_fiber_to_run(
                sched, y, id, 100 + i, n);
        case 1:
            return disciplined_fiber_scheduler_add_fiber_to_run_queue(
                sched, y, id, 100 + i, n);
        case 2: return STATUS_SUCCESS;
        case 3:
        case 6:
            s = disciplined_fiber_scheduler_add_fiber_to_run_queue(
                sched, fib[q->x], id, 200 + i, n);
            break;
        case 4:
            s = disciplined_fiber_scheduler_set_next_fiber_to_run(
                sched, y, id, 100 + i, n);
            if (s) return s;
            return disciplined_fiber_scheduler_set_next_fiber_to_run(
                sched, fib[q->x], id, 200 + i, n);
        case 5: return ERROR_GENERAL_INVALID_ARGUMENTS;
        default: vh_die("behaviour");
    }
    if (s || q->beh == 6) return s;
    return disciplined_fiber_scheduler_set_next_fiber_to_run(
        sched, y, id, 100 + i, n);
}
#define CB(i) static status cb##i(void* c, fiber* y, int e, void* p) \
    { return callback(i, c, y, e, p); }
CB(0) CB(1) CB(2) CB(3)
static fiber_scheduler_discipline_callback_fn cbv[4] = { cb0, cb1, cb2, cb3 };

/* ---- unexpected events. */
static char hrec[256];
static status unexpected(void* ctx, fiber* f, const rcpr_uuid* id, int e,
                         void* p, const rcpr_uuid* xid, int xe)
{
    char d[16]; strcpy(d, dname(id));
    int h = *(int*)ctx;
    sprintf(hrec, ",\"h\":%d,\"hf\":%d,\"hd\":\"%s\",\"he\":%d,\"hp\":%ld,"
            "\"xd\":\"%s\",\"xe\":%d", h, fid(f), d, e, (long)(intptr_t)p,
            dname(xid), xe);
    return h == 1 ? STATUS_SUCCESS
         : h == 2 ? ERROR_GENERAL_INVALID_ARGUMENTS
         : ERROR_PSOCK_READ_EOF;
}

/* fibers are given a slot as context; slots are mapped to ids. */
static long slot[NF];
static int slot_id[NF];
static void loop(int me);
static status entry(void* ctx)
{
    int me = slot_id[*(long*)ctx];
    R[0] = 0;
    observe(me, "start");
    loop(me);
    return me % 2 ? ERROR_GENERAL_INVALID_ARGUMENTS : STATUS_SUCCESS;
}
static __attribute__((noreturn, noinline)) void over(void);

static int bad_f(long a) { return a < 0 || a >= NF || !fib[a]; }
static int bad_d(long a) { return a < 0 || a >= ND || !dsc[a]; }

/* a caller's scheduler that only knows its main fiber. */
static status plain(
    void* c, fiber* y, int ev, void* p, fiber** rf, const rcpr_uuid** id,
    int* re, void** rp)
{
    static fiber* m;
    (void)c; (void)p; (void)id;
    if (ev == FIBER_SCHEDULER_YIELD_EVENT_MAIN) m = y;
    *rf = m; *rp = NULL;
    *re = ev == FIBER_SCHEDULER_YIELD_EVENT_MAIN
        ? FIBER_SCHEDULER_RESUME_EVENT_MAIN : FIBER_SCHEDULER_RESUME_EVENT_RUN;
    return STATUS_SUCCESS;
}
static void rfield(const char* k, status s)
{
    sprintf(R + strlen(R), ",\"%s\":\"%s\"", k, vh_status_name(s));
}
static void rnum(const char* k, long v)
{
    sprintf(R + strlen(R), ",\"%s\":%ld", k, v);
}
static status empty_fn(void* c) { *(int*)c += 1; return STATUS_SUCCESS; }
static void other(fiber_scheduler* z, long a, long b)
{
    fiber_scheduler_discipline *d = NULL, *m = NULL, *n = NULL, *o = NULL;
    fiber_scheduler* w = NULL; fiber *f = NULL, *g = NULL, *h = NULL;
    mailbox_address x = 0, y = 0; conditional c = 0;
    message* msg = NULL; int ran = 0;
    rfield("fi", fiber_scheduler_discipline_find(&d, z, &uu[b]));
    rfield("ad", fiber_scheduler_discipline_add(z, dsc[a]));
    if (disciplined_fiber_scheduler_main_fiber_get(&f, z)) vh_lib("main");
    if (disciplined_fiber_scheduler_current_fiber_get(&g, z)) vh_lib("cur");
    rnum("me", f == g && f != fib[0]);
    rnum("of", fiber_scheduler_from_fiber_get(f) == z);
    /* the same id, here. */
    rfield("dc", fiber_scheduler_discipline_create(
        &d, &uu[b], alloc, NULL, 1, cbv));
    rfield("da", fiber_scheduler_discipline_add(z, d));
    rfield("df", fiber_scheduler_discipline_find(&o, z, &uu[b]));
    rnum("ds", d == o && !fiber_discipline_scheduler_get(&w, o) && w == z);
    rfield("mc", message_discipline_get_or_create(&m, alloc, z));
    rfield("cc", condition_discipline_get_or_create(&n, alloc, z));
    rnum("md", m != msgd && n != cond);
    /* its mailboxes and conditionals are numbered for themselves. */
    rfield("mb", mailbox_create(&x, m)); rnum("mv", (long)x);
    rfield("m2", mailbox_create(&y, m)); rnum("mw", (long)y);
    rfield("cb", conditional_create(&c, n)); rnum("cv", (long)c);
    if (message_create(&msg, alloc, 5, tres_new(900, 0))) vh_lib("msg");
    rfield("sn", message_send(y, msg, m));
    msg = NULL;
    rfield("rc", message_receive(y, &msg, m));
    rnum("ra", msg ? (long)message_return_address(msg) : -1);
    if (msg && resource_release(message_resource_handle(msg))) vh_lib("rel");
    rfield("mx", mailbox_close(x, m));
    /* its fibers run when it does. */
    rfield("fc", fiber_create(&h, alloc, z, STACK, &ran, &empty_fn));
    rfield("fa", fiber_scheduler_add(z, h));
    rfield("ru", fiber_scheduler_run(z));
    rnum("n", ran);
    if (disciplined_fiber_scheduler_current_fiber_get(&g, z)) vh_lib("cur");
    rnum("bk", g == f);
    rfield("rl", resource_release(fiber_scheduler_resource_handle(z)));
}

static int step(int me)
{
    if (pc >= nops) over();
    P = ops[pc++]; Pf = me; R[0] = 0; cbs[0] = 0;
    vh_arm_next = P.arm;
    const char* o = P.name;
    long a = P.a;
    status s = 0;
    const rcpr_uuid* id = NULL; int ev = -1; void* par = NULL;
#define IS(x) (!strcmp(o, x))
    if (IS("exit"))
    {
        if (!me) vh_diverged("main asked to exit");
        return 0;
    }
    else if (IS("run")) { LIB(s = fiber_scheduler_run(sched)); rst(s); }
    else if (IS("yield"))
    {
        LIB(s = fiber_scheduler_yield(
            sched, FIBER_SCHEDULER_YIELD_EVENT_RUN, NULL, &id, &ev, &par));
        rst(s); if (!s) info(id, ev, par);
    }
    else if (IS("bad"))
    {
        LIB(s = fiber_scheduler_yield(sched, (int)a, NULL, &id, &ev, &par));
        rst(s);
    }
    else if (IS("bdn"))
    {
        /* the events past the last callback of the last discipline. */
        struct req q = { 5, 0, 0, NULL, 1 };
        if (bad_d(a) || dheld[a]) vh_diverged("bdn");
        for (int k = 96; k > 4; --k)
        {
            LIB(s = fiber_scheduler_yield(sched, k, &q, &id, &ev, &par));
            if (ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT != s) break;
        }
        rst(s);
    }
    else if (IS("und"))
    {
        /* a scheduler without disciplines takes none and has none. */
        fiber_scheduler* z = NULL; fiber_scheduler_discipline* d = NULL;
        status t, u;
        if (bad_d(a) || !dheld[a]) vh_diverged("und");
        LIB(s = fiber_scheduler_create(&z, alloc, NULL, &plain));
        rst(s);
        if (!s)
        {
            t = fiber_scheduler_discipline_add(z, dsc[a]);
            u = fiber_scheduler_discipline_find(
                &d, z, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE);
            rfield("ad", t); rfield("fi", u);
            rfield("rl", resource_release(fiber_scheduler_resource_handle(z)));
        }
    }
    else if (IS("oth"))
    {
        /* another scheduler has its own fibers, disciplines, mailboxes and
         * conditionals; b is the id of a discipline, a one that sched owns. */
        fiber_scheduler* z = NULL;
        if (bad_d(a) || dheld[a]) vh_diverged("oth");
        LIB(s = fiber_scheduler_create_with_disciplines(&z, alloc));
        rst(s);
        if (!s) other(z, a, P.b);
    }
    else if (IS("iyl"))
    {
        LIB(s = disciplined_fiber_scheduler_idle_fiber_yield(sched)); rst(s);
    }
    else if (IS("mk"))
    {
        fiber* f = NULL;
        if (a < 1 || a >= NF || fib[a]) vh_diverged("mk");
        slot[a] = a; slot_id[a] = (int)a;
        LIB(s = fiber_create(&f, alloc, sched, STACK, &slot[a], entry));
        rst(s); sprintf(R + strlen(R), ",\"null\":%d", f == NULL);
        if (!s) { fib[a] = f; held[a] = 1; }
    }
    else if (IS("add"))
    {
        if (bad_f(a) || !held[a]) vh_diverged("add");
        held[a] = 0;
        fiber* f = fib[a];
        LIB(s = fiber_scheduler_add(sched, f));
        if (s) held[a] = 1;
        rst(s);
    }
    else if (IS("rm"))
    {
        if (bad_f(a)) vh_diverged("rm");
        LIB(s = disciplined_fiber_scheduler_remove_fiber(sched, fib[a]));
        rst(s);
        if (!s) held[a] = 1;
    }
    else if (IS("frf"))
    {
        if (bad_f(a) || !held[a]) vh_diverged("frf");
        LIB(s = resource_release(fiber_resource_handle(fib[a])));
        rst(s); fib[a] = NULL; held[a] = 0;
    }
    else if (IS("sta"))
    {
        if (bad_f(a)) vh_diverged("sta");
        uint64_t x = fiber_state_get(fib[a]);
        sprintf(R, "\"v\":\"%s\"", x == FIBER_STATE_CREATED ? "created"
            : x == FIBER_STATE_RUNNING ? "running"
            : x == FIBER_STATE_STOPPED ? "stopped" : "?");
    }
    else if (IS("idl"))
    {
        if (bad_f(a)) vh_diverged("idl");
        LIB(s = disciplined_fiber_scheduler_set_idle_fiber(sched, fib[a]));
        held[a] = 0; rst(s);
    }
    else if (IS("rqa") || IS("rqn"))
    {
        if (bad_f(a)) vh_diverged(o);
        if (IS("rqa"))
            LIB(s = disciplined_fiber_scheduler_add_fiber_to_run_queue(
                sched, fib[a], &uu[8], (int)P.b, (void*)(intptr_t)P.b));
        else
            LIB(s = disciplined_fiber_scheduler_set_next_fiber_to_run(
                sched, fib[a], &uu[8], (int)P.b, (void*)(intptr_t)P.b));
        rst(s);
    }
    else if (IS("mgmt"))
    {
        LIB(s = disciplined_fiber_scheduler_receive_management_event(
            sched, &id, &ev, &par));
        rst(s); if (!s) info(id, ev, par);
    }
    else if (IS("quie") || IS("term"))
    {
        if (bad_f(a)) vh_diverged(o);
        if (IS("quie"))
            LIB(s = disciplined_fiber_scheduler_send_quiesce_request_to_fiber(
                sched, fib[a]));
        else
            LIB(s =
                disciplined_fiber_scheduler_send_terminate_request_to_fiber(
                    sched, fib[a]));
        rst(s);
    }
    else if (IS("quall"))
    {
        LIB(s = disciplined_fiber_scheduler_send_quiesce_request_to_all(sched));
        rst(s);
    }
    else if (IS("teall"))
    {
        LIB(s =
            disciplined_fiber_scheduler_send_terminate_request_to_all(sched));
        rst(s);
    }
    else if (IS("dsc"))
    {
        fiber_scheduler_discipline* d = NULL;
        if (a < 0 || a >= ND || dsc[a]) vh_diverged("dsc");
        LIB(s = fiber_scheduler_discipline_create(
            &d, P.b == 9 ? &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE : &uu[P.b],
            alloc, (void*)(intptr_t)a, P.c, cbv));
        rst(s);
        if (!s) { dsc[a] = d; dheld[a] = 1; }
    }
    else if (IS("dad"))
    {
        if (bad_d(a)) vh_diverged("dad");
        LIB(s = fiber_scheduler_discipline_add(sched, dsc[a]));
        rst(s);
        if (!s) dheld[a] = 0;
    }
    else if (IS("dfi"))
    {
        fiber_scheduler_discipline* d = NULL; int w = -1;
        LIB(s = fiber_scheduler_discipline_find(
            &d, sched,
            a == 9 ? &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE : &uu[a]));
        rst(s);
        for (int i = 0; d && i < ND; ++i) if (dsc[i] == d) w = i;
        if (!s && w >= 0)
        {
            void* cx = fiber_scheduler_discipline_context_get(d);
            fiber_scheduler* z = NULL;
            if (fiber_discipline_scheduler_get(&z, d)) vh_lib("schedget");
            sprintf(R + strlen(R), ",\"w\":%d,\"cx\":%d,\"ss\":%d", w,
                    (int)(intptr_t)cx, z == sched);
        }
    }
    else if (IS("dfr"))
    {
        if (bad_d(a) || !dheld[a]) vh_diverged("dfr");
        LIB(s = resource_release(
            fiber_scheduler_discipline_resource_handle(dsc[a])));
        dsc[a] = NULL; dheld[a] = 0; rst(s);
    }
    else if (IS("dyl"))
    {
        /* a = discipline*10 + uuid, b = callback, c = behaviour, d = target */
        struct req q = { (int)P.c, (int)P.d, (int)(P.b + 7), NULL,
                         (int)(a % 10) };
        if (bad_d(a / 10) || dheld[a / 10]) vh_diverged("dyl");
        if ((P.c == 3 || P.c == 4 || P.c == 6) && bad_f(P.d))
            vh_diverged("dyl");
        LIB(s = fiber_discipline_yield(dsc[a / 10], (int)P.b, &q, &id, &ev,
                                       &par));
        rst(s); if (!s) info(id, ev, par);
    }
    else if (IS("mdg") || IS("cdg"))
    {
        fiber_scheduler_discipline* d = NULL;
        if (IS("mdg"))
            LIB(s = message_discipline_get_or_create(&d, alloc, sched));
        else LIB(s = condition_discipline_get_or_create(&d, alloc, sched));
        rst(s);
        fiber_scheduler_discipline** p = IS("mdg") ? &msgd : &cond;
        if (!s) sprintf(R + strlen(R), ",\"same\":%d", !*p || *p == d);
        if (!s && !*p) *p = d;
    }
    else if (!msgd && (o[0] == 'm' || IS("snd") || IS("rcv")))
        vh_diverged("no message discipline");
    else if (!cond && !strncmp(o, "cn", 2))
        vh_diverged("no condition discipline");
    else if (IS("mbc"))
    {
        mailbox_address x = 0;
        LIB(s = mailbox_create(&x, msgd)); rst(s);
        if (!s) sprintf(R + strlen(R), ",\"v\":%ld", (long)x);
    }
    else if (IS("mbx")) { LIB(s = mailbox_close(a, msgd)); rst(s); }
    else if (IS("snd"))
    {
        message* m = NULL;
        int mid = (int)P.b;
        if (message_create(&m, alloc, P.c, tres_new(mid, 0))) vh_lib("msg");
        LIB(s = message_send(a, m, msgd)); rst(s);
        if (s && resource_release(message_resource_handle(m))) vh_lib("rel");
    }
    else if (IS("rcv"))
    {
        message* m = NULL;
        int xfer = (int)P.b;
        LIB(s = message_receive(a, &m, msgd)); rst(s);
        if (!s)
        {
            resource* p = message_payload(m, xfer);
            resource* p2 = message_payload(m, false);
            sprintf(R + strlen(R), ",\"m\":%ld,\"ra\":%ld,\"p2\":%ld",
                    p ? tres_id(p) : 0, (long)message_return_address(m),
                    p2 ? tres_id(p2) : 0);
            if (resource_release(message_resource_handle(m))) vh_lib("rel");
            if (xfer) tres_drop(p);
        }
    }
    else if (IS("cnc"))
    {
        conditional x = 0;
        LIB(s = conditional_create(&x, cond)); rst(s);
        if (!s) sprintf(R + strlen(R), ",\"v\":%ld", (long)x);
    }
    else if (IS("cnx")) { LIB(s = conditional_close(a, cond)); rst(s); }
    else if (IS("cnw")) { LIB(s = conditional_wait(a, cond)); rst(s); }
    else if (IS("cn1")) { LIB(s = conditional_notify_one(a, cond)); rst(s); }
    else if (IS("cna")) { LIB(s = conditional_notify_all(a, cond)); rst(s); }
    else if (IS("uxs"))
    {
        fiber* f = fib[a];
        s = fiber_unexpected_event_callback_add(
            f, P.b ? unexpected : NULL, &hid[P.b]);
        rst(s);
    }
    else if (IS("uxc"))
    {
        hrec[0] = 0;
        s = fiber_unexpected_event(
            fib[a], &uu[1], (int)P.b, (void*)(intptr_t)P.c, &uu[2], (int)P.d);
        rst(s); strcat(R, hrec);
    }
    else vh_die(o);
    observe(me, "ret");
    return 1;
}
static __attribute__((noinline)) void loop(int me) { while (step(me)) ; }

/* the script is over: leave whatever fiber this is for the main stack. */
static void* home[5];
static void over(void) { __builtin_longjmp(home, 1); }

void vh_script_begin(void)
{
    nops = pc = 0; msgd = cond = NULL;
    memset(fib, 0, sizeof fib); memset(held, 0, sizeof held);
    memset(dsc, 0, sizeof dsc); memset(dheld, 0, sizeof dheld);
    R[0] = cbs[0] = 0;
}
void vh_op(int ac, char** av)
{
    struct op* o = &ops[nops];
    if (nops + 1 >= MAXOPS) vh_die("script too long");
    memset(o, 0, sizeof *o);
    snprintf(o->name, sizeof o->name, "%s", av[0]);
    if (ac > 1) o->a = atol(av[1]);
    if (ac > 2) o->b = atol(av[2]);
    if (ac > 3) o->c = atol(av[3]);
    if (ac > 4) o->d = atol(av[4]);
    o->arm = vh_arm_next; vh_arm_next = 0;
    ++nops;
}
/* discipline ids: all that matters is that they differ, wherever they do. */
static void name_disciplines(void)
{
    unsigned h = (unsigned)nops;
    for (int i = 0; i < nops; ++i)
        h = h * 31 + (unsigned)ops[i].name[0] + 7 * (unsigned)ops[i].a
            + 13 * (unsigned)ops[i].b;
    int p = (int)(h / 8 % 16);
    for (int i = 0; i < 10; ++i)
        for (int j = 0; j < 16; ++j)
            uu[i].data[j] = (uint8_t)(
                h % 8 < 2 ? 17 * i + j * i
                : h % 8 < 4 ? (j == p ? i : 0)
                : h % 8 == 4 ? (j == p ? 0x7c + i : 0x80 + j)
                : h % 8 == 5 ? (j == p ? 0xf6 + i : j == 2 ? 0 : 0xff)
                : h % 8 == 6 ? (j == 0 ? 5 : j == 15 ? i : j == p ? 0 : 9)
                : FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE.data[j]
                  ^ (j == p ? i + 1 : 0));
}
static int by_address(const void* x, const void* y)
{
    fiber *a = *(fiber**)x, *b = *(fiber**)y;
    return a < b ? -1 : a > b;
}
static void setup(void)
{
    status s;
    int i = 0;
    if (malloc_allocator_create(&alloc)) vh_lib("allocator");
    /* "sched": created, possibly under an injected failure. */
    while (i < nops && !strcmp(ops[i].name, "sched"))
    {
        sched = NULL; vh_arm_next = ops[i].arm;
        LIB(s = fiber_scheduler_create_with_disciplines(&sched, alloc));
        ev_open("sched"); ev_status(s); ev_oom(); ev_close();
        ++i;
        if (!s) break;
    }
    pc = i;
    if (!i || s) { sched = NULL; return; }
    if (disciplined_fiber_scheduler_main_fiber_get(&fib[0], sched))
        vh_lib("main");
    if (i < nops && !strcmp(ops[i].name, "fibs"))
    {
        /* ids follow addresses, which order the scheduler's own tree. */
        int n = (int)ops[i].a;
        if (n >= NF) vh_die("fibs");
        ev_open("fibs"); ev_int("n", n); ev_close();
        struct { fiber* f; int slot; } t[NF];
        for (int k = 0; k < n; ++k)
        {
            slot[k] = k; t[k].slot = k; t[k].f = NULL;
            if (fiber_create(&t[k].f, alloc, sched, STACK, &slot[k], entry))
                vh_lib("fiber");
        }
        qsort(t, n, sizeof *t, by_address);
        for (int k = 0; k < n; ++k)
        {
            fib[k + 1] = t[k].f; held[k + 1] = 1; slot_id[t[k].slot] = k + 1;
        }
        ++i;
    }
    pc = i;
    while (pc < nops && (!strcmp(ops[pc].name, "mdg")
                         || !strcmp(ops[pc].name, "cdg")))
        step(0);
}
static void finish(void)
{
    status s;
    vh_fail_at = 0; vh_arm_next = 0;
    int fired = 0; (void)fired;
    if (sched)
    {
        s = resource_release(fiber_scheduler_resource_handle(sched));
        for (int i = 1; i < NF; ++i)
            if (fib[i] && held[i]
             && resource_release(fiber_resource_handle(fib[i])))
                vh_lib("fiber release");
        for (int i = 0; i < ND; ++i)
            if (dsc[i] && dheld[i]
             && resource_release(
                    fiber_scheduler_discipline_resource_handle(dsc[i])))
                vh_lib("discipline release");
    }
    else s = 0;
    if (resource_release(allocator_resource_handle(alloc))) vh_lib("alloc");
    ev_open("end"); ev_status(s); ev_rel(); ev_int("live", vh_live);
    ev_close();
    sched = NULL;
}
static __attribute__((noinline)) void body(void)
{
    name_disciplines();
    if (__builtin_setjmp(home) == 0)
    {
        setup();
        if (sched) loop(0);
    }
}
void vh_script_end(void)
{
    body();
    finish();
}
