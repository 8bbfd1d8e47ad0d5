/* Driver for rcpr/auto_reset_trigger.h, rcpr/bigint.h and rcpr/stack.h. */
#include "vh.h"
#include <rcpr/allocator.h>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/stack.h>
#include <bigint/bigint_internal.h>
#include <stack/stack_internal.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_auto_reset_trigger;
RCPR_IMPORT_bigint;
RCPR_IMPORT_resource;
RCPR_IMPORT_stack;
#include "ualloc.h"

#define NT 4
static allocator* alloc; static int which;   /* the other one's blocks: */
#define OTHER(before) ev_int("other", ua_blocks(which + 1) - before)
#define RCF (ev_int("rcf", ua_refused), ua_refused = 0)
static auto_reset_trigger* tr[NT];
static bigint* bi[NT];
static stack* st_[NT];
static long called[64]; static int ncalled;
static char ctx[256];

static void listener(void* c)
{
    if (ncalled < 64) called[ncalled++] = (char*)c - ctx;
}
static void other(void* c)
{
    if (ncalled < 64) called[ncalled++] = 1000 + ((char*)c - ctx);
}
void vh_script_begin(void)
{
    memset(tr, 0, sizeof tr); memset(bi, 0, sizeof bi);
    memset(st_, 0, sizeof st_);
    ncalled = 0;
    ua_begin(); alloc = ua_get(which = 0);
}
static int I(const char* s, void* p, int live)
{
    int i = atoi(s);
    if (i < 0 || i >= NT || (((void**)p)[i] != NULL) != live)
        vh_diverged("object");
    return i;
}
static void calls(void) { ev_ints("calls", called, ncalled); ncalled = 0; }

void vh_op(int ac, char** av)
{
    const char* op = av[0];
    status s;
    int others = ua_blocks(which + 1);
    if (!strcmp(op, "al"))           /* al k: the allocator of what follows */
    {
        alloc = ua_get(which = atoi(av[1]));
    }
    else if (!strcmp(op, "ru"))      /* ru n: reclaim n of the next op fails */
    {
        ua_refuse = atoi(av[1]);
        return;
    }
    else if (!strcmp(op, "tn"))
    {
        int i = I(av[1], tr, 0); auto_reset_trigger* t = NULL;
        LIB(s = auto_reset_trigger_create(&t, alloc));
        ev_open(op); ev_int("i", i); ev_status(s); ev_oom();
        ev_int("null", t == NULL); OTHER(others); calls(); ev_close();
        if (!s) tr[i] = t;
    }
    else if (!strcmp(op, "tr"))      /* tr i context callback(0|1) */
    {
        int i = I(av[1], tr, 1), c = atoi(av[2]), w = atoi(av[3]);
        LIB(s = auto_reset_trigger_register(tr[i], w ? &other : &listener,
                                            ctx + c));
        ev_open(op); ev_int("i", i); ev_int("c", w ? 1000 + c : c);
        ev_status(s); calls(); ev_close();
    }
    else if (!strcmp(op, "ts"))
    {
        int i = I(av[1], tr, 1);
        LIB(auto_reset_trigger_signal(tr[i]));
        ev_open(op); ev_int("i", i); calls(); ev_close();
    }
    else if (!strcmp(op, "tp"))
    {
        int i = I(av[1], tr, 1);
        LIB(auto_reset_trigger_step(tr[i]));
        ev_open(op); ev_int("i", i); calls(); ev_close();
    }
    else if (!strcmp(op, "tf"))
    {
        int i = I(av[1], tr, 1);
        LIB(s = resource_release(auto_reset_trigger_resource_handle(tr[i])));
        tr[i] = NULL;
        ev_open(op); ev_int("i", i); ev_status(s); calls(); RCF; ev_close();
    }
    else if (!strcmp(op, "gn"))      /* gn i bits */
    {
        int i = I(av[1], bi, 0); bigint* b = NULL;
        LIB(s = bigint_create_zero(&b, alloc, strtoul(av[2], 0, 10)));
        ev_open(op); ev_int("i", i); ev_int("n", atol(av[2])); ev_status(s);
        ev_oom(); ev_int("null", b == NULL); OTHER(others);
        ev_close();
        if (!s) bi[i] = b;
    }
    else if (!strcmp(op, "gc"))      /* gc i j : i is made a clone of j */
    {
        int i = I(av[1], bi, 0), j = I(av[2], bi, 1); bigint* b = NULL;
        LIB(s = bigint_clone(&b, alloc, bi[j]));
        ev_open(op); ev_int("i", i); ev_int("j", j); ev_status(s);
        ev_oom(); ev_int("null", b == NULL); OTHER(others); ev_close();
        if (!s) bi[i] = b;
    }
    else if (!strcmp(op, "gp"))      /* gp i digit value sign : poke */
    {
        int i = I(av[1], bi, 1); size_t d = strtoul(av[2], 0, 10);
        if (d >= bi[i]->length) vh_diverged("digit");
        bi[i]->array[d] = strtoul(av[3], 0, 10); bi[i]->sign = atoi(av[4]);
        ev_open(op); ev_int("i", i); ev_int("d", (long)d);
        ev_int("v", atol(av[3])); ev_int("s", atoi(av[4])); ev_close();
    }
    else if (!strcmp(op, "gr"))      /* read back */
    {
        int i = I(av[1], bi, 1); static long v[4096]; size_t n = bi[i]->length;
        for (size_t k = 0; k < n && k < 4096; ++k) v[k] = (long)bi[i]->array[k];
        ev_open(op); ev_int("i", i); ev_ints("v", v, (int)(n < 4096 ? n : 4096));
        ev_int("s", bi[i]->sign); ev_close();
    }
    else if (!strcmp(op, "gf"))
    {
        int i = I(av[1], bi, 1);
        LIB(s = resource_release(bigint_resource_handle(bi[i])));
        bi[i] = NULL;
        ev_open(op); ev_int("i", i); ev_status(s); RCF; ev_close();
    }
    else if (!strcmp(op, "kn"))      /* kn i bytes */
    {
        int i = I(av[1], st_, 0); stack* t = NULL; size_t n = strtoul(av[2], 0, 10);
        LIB(s = stack_create(&t, alloc, n));
        ev_open(op); ev_int("i", i); ev_int("n", (long)n); ev_status(s);
        ev_oom(); ev_int("null", t == NULL); OTHER(others);
        if (!s)
        {
            /* all of it can be written. */
            st_[i] = t;
            memset(t->region, 0x5A, n);
            ev_int("size", (long)t->size);
        }
        ev_close();
    }
    else if (!strcmp(op, "kf"))
    {
        int i = I(av[1], st_, 1);
        LIB(s = resource_release(stack_resource_handle(st_[i])));
        st_[i] = NULL;
        ev_open(op); ev_int("i", i); ev_status(s); RCF; ev_close();
    }
    else vh_die("unknown op");
    ua_refuse = 0;
}
void vh_script_end(void)
{
    status s = 0;
    for (int i = 0; i < NT; ++i)
    {
        if (tr[i]) s |= resource_release(auto_reset_trigger_resource_handle(tr[i]));
        if (bi[i]) s |= resource_release(bigint_resource_handle(bi[i]));
        if (st_[i]) s |= resource_release(stack_resource_handle(st_[i]));
    }
    ev_open("end"); ev_int("rc", s); ev_int("live", vh_live);
    ev_int("foreign", foreign); calls();
    ev_close();
}
