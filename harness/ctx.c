/* Driver for fibers under a caller-written scheduler (fiber_scheduler_create)
 * and for the machine context each fiber keeps across switches.  Whichever
 * fiber is running takes the next operation of the script. */
#include "vh.h"
#include <rcpr/allocator.h>
#include <rcpr/fiber.h>
#include <rcpr/uuid.h>

RCPR_IMPORT_allocator_as(r);
RCPR_IMPORT_fiber;
RCPR_IMPORT_resource;
RCPR_IMPORT_uuid;

extern const rcpr_uuid FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
#define NF 8
#define NREG 14
#define MXOPS 512
static char* ops[MXOPS]; static int nops, pos;
static r_allocator* alloc;
static fiber_scheduler* sched;
static fiber* fib[NF];           /* 0: main */
static int added[NF], made[NF];
static char param[256];
static rcpr_uuid disc[4];
static struct { int on, to, d, ev, par, st; } plan;   /* the next decision */
static int create_mode;

struct regs { uint64_t r[6]; uint32_t mx, cw; };
void probe(struct regs* in, struct regs* out, void (*fn)(void*), void* arg);
__asm__(
"   .text\n   .globl probe\n   .type probe,@function\nprobe:\n"
"   push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
"   sub $24, %rsp\n"
"   mov %rsi, (%rsp)\n stmxcsr 8(%rsp)\n fnstcw 12(%rsp)\n"
"   mov %rdx, %rax\n mov %rdi, %r10\n mov %rcx, %rdi\n"
"   ldmxcsr 48(%r10)\n fldcw 52(%r10)\n"
"   mov 0(%r10), %rbx\n mov 8(%r10), %rbp\n mov 16(%r10), %r12\n"
"   mov 24(%r10), %r13\n mov 32(%r10), %r14\n mov 40(%r10), %r15\n"
"   call *%rax\n"
"   mov (%rsp), %r10\n"
"   mov %rbx, 0(%r10)\n mov %rbp, 8(%r10)\n mov %r12, 16(%r10)\n"
"   mov %r13, 24(%r10)\n mov %r14, 32(%r10)\n mov %r15, 40(%r10)\n"
"   stmxcsr 48(%r10)\n fnstcw 52(%r10)\n"
"   ldmxcsr 8(%rsp)\n fldcw 12(%rsp)\n"
"   add $24, %rsp\n"
"   pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n"
"   .size probe,.-probe\n");

static long fidx(fiber* f)
{
    for (int i = 0; i < NF; ++i) if (fib[i] && fib[i] == f) return i;
    return -1;
}
static long pidx(void* p)
{
    if (!p) return -1;
    if ((char*)p >= param && (char*)p < param + sizeof param)
        return (char*)p - param;
    return -2;
}
static long didx(const rcpr_uuid* d)
{
    if (d == &FIBER_SCHEDULER_INTERNAL_DISCIPLINE) return 0;
    for (int i = 0; i < 4; ++i) if (d == &disc[i]) return i + 1;
    return -2;
}
static void* P(int i) { return i < 0 ? NULL : param + (i & 255); }
static void regs_make(struct regs* r, unsigned seed)
{
    for (int i = 0; i < 6; ++i)
    {
        seed = seed * 1103515245u + 12345u;
        uint64_t lo = seed & 0x7fffffff;
        seed = seed * 1103515245u + 12345u;
        r->r[i] = ((uint64_t)(seed & 0x7fffffff) << 32) | lo;
    }
    r->mx = 0x1f80 | ((seed >> 3) & 3) << 13 | ((seed >> 5) & 1) << 15
        | ((seed >> 6) & 1) << 6;
    r->cw = 0x037f & ~0x300;
    r->cw |= ((seed >> 7) & 3) << 10;
    r->cw |= ((seed >> 9) & 1) ? 0x300 : 0x200;
}
static void ev_regs(const char* k, struct regs* r)
{
    long v[NREG];
    for (int i = 0; i < 6; ++i)
    { v[2 * i] = r->r[i] & 0xffffffff; v[2 * i + 1] = r->r[i] >> 32;
      /* 32-bit signed in the specification. */
      v[2 * i] = (int32_t)v[2 * i]; v[2 * i + 1] = (int32_t)v[2 * i + 1]; }
    v[12] = r->mx & 0xffc0; v[13] = r->cw & 0xf3f;
    ev_ints(k, v, NREG);
}

/* ---- the scheduler under the script's control ---- */
static status callback(
    void* c, fiber* yf, int yev, void* yp, fiber** rf, const rcpr_uuid** rd,
    int* rev, void** rp)
{
    ev_open("cb"); ev_int("ctx", pidx(c)); ev_int("ev", yev);
    if (yev == FIBER_SCHEDULER_YIELD_EVENT_MAIN)
    {
        ev_int("null", yp == NULL);
        ev_int("id", *rd == &FIBER_SCHEDULER_INTERNAL_DISCIPLINE);
        ev_int("mode", create_mode); ev_close();
        fib[0] = yf; added[0] = 1;
        if (create_mode == 1) return 77;
        *rf = create_mode == 2 ? NULL : yf;
        *rev = create_mode == 3 ? FIBER_SCHEDULER_RESUME_EVENT_RUN
            : FIBER_SCHEDULER_RESUME_EVENT_MAIN;
        *rp = NULL;
        return STATUS_SUCCESS;
    }
    ev_int("fib", fidx(yf));
    if (yev == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE)
    {
        long rel[NF]; int n = 0; status s = 0;
        ev_int("null", yp == NULL);
        for (int i = 1; i < NF; ++i)
            if (fib[i])
            {
                s |= resource_release(fiber_resource_handle(fib[i]));
                fib[i] = NULL; rel[n++] = i;
            }
        ev_int("rst", s); ev_close();
        *rf = NULL;
        return STATUS_SUCCESS;
    }
    if (yev == FIBER_SCHEDULER_YIELD_EVENT_STOP)
        ev_int("par", yp ? *(status*)yp : -12345);
    else if (yev == FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER)
    {
        long i = fidx(yp);
        ev_int("par", i);
        if (i >= 0 && !plan.st) added[i] = 1;
    }
    else ev_int("par", pidx(yp));
    ev_int("st", plan.st);
    if (plan.st)
    {   /* whatever else a refusal says, nobody is resumed. */
        ev_close();
        *rf = fib[plan.to]; *rd = &disc[1]; *rev = 4321; *rp = P(9);
        return plan.st;
    }
    ev_int("to", plan.to); ev_int("d", plan.d); ev_int("rev", plan.ev);
    ev_int("rpar", plan.par); ev_close();
    *rf = fib[plan.to];
    if (plan.d > 0) *rd = &disc[plan.d - 1];
    *rev = plan.ev; *rp = P(plan.par);
    return STATUS_SUCCESS;
}

/* ---- what the running fiber does ---- */
struct call
{
    int kind;                    /* 0 yield, 1 add, 2 run, 3 create */
    int stack, n; fiber* made;
    int yev; void* ypar; fiber* f;
    status st; const rcpr_uuid* d; int ev; void* par;
};
static status body(void* c);
static void do_call(void* v)
{
    struct call* c = v;
    if (c->kind == 0)
        c->st = fiber_scheduler_yield(sched, c->yev, c->ypar, &c->d, &c->ev,
                                      &c->par);
    else if (c->kind == 3)
        c->st = fiber_create(&c->made, alloc, sched, (size_t)c->stack,
                             param + 100 + c->n, &body);
    else if (c->kind == 1) c->st = fiber_scheduler_add(sched, c->f);
    else c->st = fiber_scheduler_run(sched);
}
static void plan_set(int to, int d, int ev, int par, int st)
{
    plan.to = to; plan.d = d; plan.ev = ev; plan.par = par; plan.st = st;
}
static status agent(int self, int depth);
static status body(void* c)
{
    int self = (int)pidx(c) - 100;
    uint32_t mx; uint16_t cw;
    __asm__ volatile("stmxcsr %0; fnstcw %1" : "=m"(mx), "=m"(cw));
    ev_open("start"); ev_int("fib", self);
    ev_int("align", (long)((uintptr_t)__builtin_frame_address(0) % 16));
    ev_int("mx", mx & 0xffc0); ev_int("cw", cw & 0xf3f);
    ev_int("state", self >= 0 && self < NF && fib[self]
           ? (int)fiber_state_get(fib[self]) : -1);
    ev_close();
    return agent(self, 0);
}
static volatile int unwinding; static int exit_value;
static void call_out(int self, struct call* c, unsigned seed)
{
    struct regs in, out;
    regs_make(&in, seed);
    c->d = NULL; c->ev = -99; c->par = param + 255;
    memset(&out, 0, sizeof out);
    ev_open("go"); ev_int("fib", self); ev_int("kind", c->kind);
    ev_int("yev", c->yev); ev_int("ypar", pidx(c->ypar));
    ev_int("f", c->f ? fidx(c->f) : -1);
    ev_regs("set", &in); ev_close();
    probe(&in, &out, &do_call, c);
    ev_open("res"); ev_int("fib", self); ev_int("st", c->st);
    ev_regs("got", &out);
    if (c->kind == 0 && !c->st)
    { ev_int("d", didx(c->d)); ev_int("ev", c->ev); ev_int("par", pidx(c->par)); }
    ev_close();
}
static int alive(int f)
{
    return f >= 0 && f < NF && fib[f] && added[f]
        && (f == 0 || fiber_state_get(fib[f]) != FIBER_STATE_STOPPED);
}
static int pick(int f, int self)
{
    for (int i = 0; i < NF; ++i)
        if (alive((f + i) % NF)) return (f + i) % NF;
    return self;
}
/* one frame of the running fiber; deeper ones keep a pattern in theirs. */
static status agent(int self, int depth)
{
    volatile unsigned char pat[200 + 16 * (depth % 7)];
    for (unsigned i = 0; i < sizeof pat; ++i) pat[i] = 37 * self + 11 * depth + i;
    while (pos < nops || self != 0)
    {
        char buf[256]; char* av[16]; int ac = 0;
        if (pos < nops)
            snprintf(buf, sizeof buf, "%s", ops[pos++]);
        else
            snprintf(buf, sizeof buf, "sw 0 0 18 -1 7");
        for (char* t = strtok(buf, " "); t && ac < 16; t = strtok(NULL, " "))
            av[ac++] = t;
        #define A(i) (ac > (i) ? atoi(av[i]) : 0)
        struct call c = { 0 };
        vh_arm_next = 0;
        int b = 0;
        if (av[0][0] == '!') { vh_arm_next = atoi(av[0] + 1); b = 1; }
        const char* op = av[b];
        if (!strcmp(op, "fn"))           /* fn f stack seed */
        {
            int f = A(b + 1); status s; fiber* x = NULL;
            if (f < 1 || f >= NF || fib[f]) { ev_open("none"); ev_close(); continue; }
            /* created with control words of the creator's choice. */
            struct regs in, out;
            regs_make(&in, A(b + 3));
            if (!A(b + 3)) { in.mx = 0x1f80; in.cw = 0x37f; }
            c.kind = 3; c.n = f; c.stack = A(b + 2) ? A(b + 2) : 32768;
            LIB(probe(&in, &out, &do_call, &c));
            s = c.st; x = c.made;
            fib[f] = s ? NULL : x; added[f] = 0;
            ev_open(op); ev_int("f", f); ev_status(s); ev_oom();
            ev_int("null", x == NULL);
            ev_int("state", s ? -1 : (int)fiber_state_get(x));
            ev_int("same", s ? 0 : fiber_scheduler_from_fiber_get(x) == sched);
            ev_int("mx", in.mx & 0xffc0); ev_int("cw", in.cw & 0xf3f);
            ev_close(); vh_fired = 0;
        }
        else if (!strcmp(op, "ad"))      /* ad f to d ev par seed */
        {
            int f = A(1);
            if (f < 1 || f >= NF || !fib[f] || added[f])
            { ev_open("none"); ev_close(); continue; }
            /* the new fiber itself may be chosen at once. */
            plan_set(A(2) == f ? f : pick(A(2), self), A(3), A(4), A(5), 0);
            c.kind = 1; c.f = fib[f]; call_out(self, &c, A(6));
        }
        else if (!strcmp(op, "sw"))      /* sw to d ev par seed yev ypar */
        {
            plan_set(pick(A(1), self), A(2), A(3), A(4), 0);
            c.yev = ac > 6 ? A(6) : 0x2000; c.ypar = ac > 7 ? P(A(7)) : NULL;
            call_out(self, &c, A(5));
        }
        else if (!strcmp(op, "ea"))      /* ea f status seed to: refused add */
        {
            int f = A(1);
            if (f < 1 || f >= NF || !fib[f] || added[f])
            { ev_open("none"); ev_close(); continue; }
            plan_set(A(4) == f ? f : pick(A(4), self), 0, 0, 0, A(2));
            c.kind = 1; c.f = fib[f]; call_out(self, &c, A(3));
        }
        else if (!strcmp(op, "eu"))      /* eu status seed to: refused run */
        {
            if (self) { ev_open("none"); ev_close(); continue; }
            plan_set(pick(A(3), self), 0, 0, 0, A(1));
            c.kind = 2; call_out(self, &c, A(2));
        }
        else if (!strcmp(op, "er"))      /* er status seed to: refused */
        {
            plan_set(pick(A(3), self), 0, 0, 0, A(1));
            c.yev = 0x2000; c.ypar = P(3); call_out(self, &c, A(2));
        }
        else if (!strcmp(op, "ru"))      /* ru to d ev par seed */
        {
            if (self) { ev_open("none"); ev_close(); continue; }
            plan_set(pick(A(1), self), A(2), A(3), A(4), 0);
            c.kind = 2; call_out(self, &c, A(5));
        }
        else if (!strcmp(op, "dp"))
        {
            if (depth > 40) { ev_open("none"); ev_close(); continue; }
            ev_open("deep"); ev_int("fib", self); ev_int("n", depth + 1); ev_close();
            agent(self, depth + 1);
            if (unwinding == self && self) break;
        }
        else if (!strcmp(op, "up"))
        {
            if (!depth) { ev_open("none"); ev_close(); continue; }
            break;
        }
        else if (!strcmp(op, "ex"))      /* ex value to d ev par */
        {
            if (!self) { ev_open("none"); ev_close(); continue; }
            int to = -1;
            for (int i = 0; i < NF && to < 0; ++i)
                if ((A(2) + i) % NF != self && alive((A(2) + i) % NF))
                    to = (A(2) + i) % NF;
            exit_value = A(1); unwinding = self;
            plan_set(to, A(3), A(4), A(5), 0);
            ev_open("exit"); ev_int("fib", self); ev_int("v", exit_value);
            ev_int("n", depth); ev_close();
            break;
        }
        else vh_die("unknown op");
    }
    int ok = 1;
    for (unsigned i = 0; i < sizeof pat; ++i)
        if (pat[i] != (unsigned char)(37 * self + 11 * depth + i)) ok = 0;
    ev_open("pop"); ev_int("fib", self); ev_int("n", depth); ev_int("ok", ok);
    ev_close();
    if (depth == 0 && self) unwinding = 0;
    return exit_value;
}
void vh_script_begin(void)
{
    for (int i = 0; i < nops; ++i) vh_xfree(ops[i]);
    nops = pos = 0;
    memset(fib, 0, sizeof fib); memset(added, 0, sizeof added);
    sched = NULL; unwinding = 0; create_mode = 0;
    if (r_malloc_allocator_create(&alloc)) vh_lib("allocator");
}
void vh_op(int ac, char** av)
{
    char t[256]; size_t n = 0;
    if (!strcmp(av[0], "cr"))        /* cr mode: create the scheduler */
    {
        status s; fiber_scheduler* x = NULL;
        create_mode = atoi(av[1]);
        LIB(s = fiber_scheduler_create(&x, alloc, param + 50, &callback));
        ev_open("cr"); ev_int("mode", create_mode); ev_status(s); ev_oom();
        ev_int("null", x == NULL); ev_int("raw", s); ev_close();
        vh_fired = 0;
        if (s) memset(fib, 0, sizeof fib); else sched = x;
        return;
    }
    if (vh_arm_next) n += sprintf(t, "!%d ", vh_arm_next);
    for (int i = 0; i < ac && n < 200; ++i) n += sprintf(t + n, "%s ", av[i]);
    if (nops == MXOPS) vh_die("too many ops");
    ops[nops] = vh_xmalloc(n + 1); strcpy(ops[nops++], t);
    vh_arm_next = 0;
}
void vh_script_end(void)
{
    status s = 0;
    if (sched)
    {
        agent(0, 0);
        s = resource_release(fiber_scheduler_resource_handle(sched));
    }
    s |= resource_release(r_allocator_resource_handle(alloc));
    ev_open("end"); ev_int("rc", s); ev_int("live", vh_live); ev_close();
}
