/* Driver for rcpr/rbtree.h: executes scripts against two trees. */
#include "vh.h"
#include <rcpr/allocator.h>
#include <rcpr/compare.h>
#include <rcpr/rbtree.h>
#ifdef RB_SHAPE
#include "rbtree/rbtree_internal.h"
#endif

RCPR_IMPORT_allocator;
RCPR_IMPORT_compare;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_resource;

#define NT 3
static allocator* alloc;
static rbtree* tr[NT];
#define NC 512
static struct order { int d; } ctxs[NC];   /* what the functions are given */
static int nctx;
static long ncmp;
static int cxseen[NC + 1];
static struct order* order(void* c)
{
    for (int i = 0; i < nctx; ++i)
        if (c == &ctxs[i]) { cxseen[i] = 1; return c; }
    cxseen[NC] = 1;
    return &ctxs[0];
}
static void ev_cx(void)
{
    long v[NC + 1]; int n = 0;
    for (int i = 0; i <= NC; ++i) if (cxseen[i]) v[n++] = i;
    ev_ints("cx", v, n);
    memset(cxseen, 0, sizeof cxseen);
}

static rcpr_comparison_result cmp(void* c, const void* a, const void* b)
{
    ++ncmp;
    int d = order(c)->d, x = d * *(const int*)a, y = d * *(const int*)b;
    return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
static const void* keyof(void* c, const resource* r)
{
    order(c);
    return &((const tres*)r)->key;
}
void vh_script_begin(void)
{
    memset(tr, 0, sizeof tr); nctx = 0;
    memset(cxseen, 0, sizeof cxseen);
    if (malloc_allocator_create(&alloc)) vh_lib("allocator");
}
static rbtree* T(const char* s)
{
    int i = atoi(s);
    if (i < 0 || i >= NT || !tr[i]) vh_diverged("bad tree");
    return tr[i];
}
#define CAP 70000
static long fw[CAP], bw[CAP], ks[CAP];
static long sh[4 * CAP]; static int nsh; static int pok;
#ifdef RB_SHAPE
static void shape(rbtree* t, rbtree_node* n, rbtree_node* parent)
{
    if (nsh > 3 * CAP) return;
    if (n == rbtree_nil_node(t)) { sh[nsh++] = 0; return; }
    if (rbtree_parent_node(t, n) != parent) pok = 0;
    sh[nsh++] = ((tres*)n->value)->key + 1;
    sh[nsh++] = n->color == RBTREE_RED ? 1 : 0;
    shape(t, rbtree_left_node(t, n), n);
    shape(t, rbtree_right_node(t, n), n);
}
#endif
static rbtree_node* nth(rbtree* t, int i)
{
    rbtree_node* nil = rbtree_nil_node(t);
    rbtree_node* n = rbtree_root_node(t);
    n = rbtree_minimum_node(t, n);
    memset(cxseen, 0, sizeof cxseen);
    while (i-- > 0 && n != nil) n = rbtree_successor_node(t, n);
    return n == nil ? NULL : n;
}
void vh_op(int ac, char** av)
{
    const char* op = av[0];
    if (!strcmp(op, "new"))
    {
        int i = atoi(av[1]); rbtree* t = NULL; status s;
        if (i < 0 || i >= NT || tr[i]) vh_diverged("new");
        if (nctx == NC) vh_die("too many trees");
        int x = nctx++;
        ctxs[x].d = ac > 2 && atoi(av[2]) < 0 ? -1 : 1;
        LIB(s = rbtree_create(&t, alloc, &cmp, &keyof, &ctxs[x]));
        ev_open(op); ev_int("t", i); ev_int("c", x); ev_int("d", ctxs[x].d);
        ev_status(s); ev_oom(); ev_int("null", t == NULL);
        ev_rel(); ev_close();
        if (!s) tr[i] = t;
    }
    else if (!strcmp(op, "free"))
    {
        int i = atoi(av[1]); status s; rbtree* t = T(av[1]);
        LIB(s = resource_release(rbtree_resource_handle(t)));
        tr[i] = NULL;
        ev_open(op); ev_int("t", i); ev_status(s); ev_rel(); ev_close();
    }
    else if (!strcmp(op, "ins"))
    {
        int id = atoi(av[2]), k = atoi(av[3]); status s;
        rbtree* t = T(av[1]);
        resource* r = tres_new(id, k);
        LIB(s = rbtree_insert(t, r));
        ev_open(op); ev_int("t", atoi(av[1])); ev_int("id", id);
        ev_int("k", k); ev_status(s); ev_oom(); ev_cx(); ev_rel(); ev_close();
        if (s && vh_tres[id]) tres_drop(r);
    }
    else if (!strcmp(op, "fill"))
    {   /* fill t id n step mod: id + j under key j * step % mod */
        int id = atoi(av[2]), n = atoi(av[3]), j = 0; status s = 0;
        long step = atol(av[4]), mod = atol(av[5]);
        rbtree* t = T(av[1]);
        for (; j < n && !s; j += !s)
        {
            resource* r = tres_new(id + j, (int)(j * step % mod));
            LIB(s = rbtree_insert(t, r));
            if (s) tres_drop(r);
        }
        ev_open(op); ev_int("t", atoi(av[1])); ev_int("id", id); ev_int("n", j);
        ev_int("step", step); ev_int("mod", mod); ev_status(s); ev_cx();
        ev_rel(); ev_close();
    }
    else if (!strcmp(op, "drain"))
    {   /* drain t n step mod: take the entries under such keys, having
         * looked each up. */
        int n = atoi(av[2]), j = 0; status s = 0;
        long step = atol(av[3]), mod = atol(av[4]), worst = 0;
        rbtree* t = T(av[1]);
        if (n > CAP) vh_die("drain");
        for (; j < n && !s; ++j)
        {
            int k = (int)(j * step % mod); resource *r = NULL, *f = NULL;
            ncmp = 0;
            LIB(s = rbtree_find(&f, t, &k));
            if (ncmp > worst) worst = ncmp;
            if (!s) LIB(s = rbtree_delete(&r, t, &k));
            fw[j] = r == f ? tres_id(r) : -2;
            tres_drop(r);
        }
        ev_open(op); ev_int("t", atoi(av[1])); ev_int("step", step);
        ev_int("mod", mod); ev_status(s); ev_ints("r", fw, j);
        ev_int("cmp", worst); ev_cx(); ev_rel(); ev_close();
    }
    else if (!strcmp(op, "find"))
    {
        int k = atoi(av[2]); status s; resource* r = (resource*)16;
        rbtree* t = T(av[1]);
        ncmp = 0;
        LIB(s = rbtree_find(&r, t, &k));
        ev_open(op); ev_int("t", atoi(av[1])); ev_int("k", k); ev_status(s);
        ev_int("r", tres_id(r)); ev_int("cmp", ncmp); ev_cx(); ev_rel(); ev_close();
    }
    else if (!strcmp(op, "del"))
    {
        int k = atoi(av[2]), give = atoi(av[3]); status s;
        resource* r = NULL; rbtree* t = T(av[1]);
        LIB(s = rbtree_delete(give ? &r : NULL, t, &k));
        ev_open(op); ev_int("t", atoi(av[1])); ev_int("k", k);
        ev_int("give", give); ev_status(s); ev_int("r", tres_id(r));
        ev_cx(); ev_rel(); ev_close();
        tres_drop(r);
    }
    else if (!strcmp(op, "deln"))
    {
        int i = atoi(av[2]), give = atoi(av[3]); status s;
        resource* r = NULL; rbtree* t = T(av[1]);
        if (rbtree_root_node(t) == rbtree_nil_node(t))
        {
            ev_open("empty"); ev_int("t", atoi(av[1])); ev_close();
            return;
        }
        rbtree_node* n = nth(t, i);
        if (!n)
        {
            ev_open("short"); ev_int("t", atoi(av[1])); ev_int("i", i);
            ev_close(); return;
        }
        long id = tres_id(rbtree_node_value(t, n));
        LIB(s = rbtree_delete_node(give ? &r : NULL, t, n));
        ev_open(op); ev_int("t", atoi(av[1])); ev_int("id", id);
        ev_int("i", i);
        ev_int("give", give); ev_status(s); ev_int("r", tres_id(r));
        ev_rel(); ev_close();
        tres_drop(r);
    }
    else if (!strcmp(op, "clear"))
    {
        status s; rbtree* t = T(av[1]);
        LIB(s = rbtree_clear(t));
        ev_open(op); ev_int("t", atoi(av[1])); ev_status(s); ev_rel();
        ev_close();
    }
    else if (!strcmp(op, "swap"))
    {
        rbtree* a = T(av[1]); rbtree* b = T(av[2]);
        LIB(rbtree_swap(a, b));
        ev_open(op); ev_int("t", atoi(av[1])); ev_int("u", atoi(av[2]));
        ev_rel(); ev_close();
    }
    else if (!strcmp(op, "walk"))
    {
        rbtree* t = T(av[1]); int f = 0, b = 0;
        rbtree_node* nil = rbtree_nil_node(t);
        rbtree_node* n = rbtree_root_node(t);
        if (n != nil)
        {
            for (n = rbtree_minimum_node(t, rbtree_root_node(t));
                 n != nil && f < CAP; n = rbtree_successor_node(t, n))
            {
                ks[f] = ((tres*)rbtree_node_value(t, n))->key;
                fw[f++] = tres_id(rbtree_node_value(t, n));
            }
            for (n = rbtree_maximum_node(t, rbtree_root_node(t));
                 n != nil && b < CAP; n = rbtree_predecessor_node(t, n))
                bw[b++] = tres_id(rbtree_node_value(t, n));
        }
        ev_open(op); ev_int("t", atoi(av[1])); ev_ints("f", fw, f);
        ev_ints("k", ks, f);
        ev_ints("b", bw, b); ev_int("n", (long)rbtree_count(t)); ev_close();
    }
#ifdef RB_SHAPE
    else if (!strcmp(op, "shape"))
    {
        rbtree* t = T(av[1]);
        nsh = 0; pok = 1;
        shape(t, rbtree_root_node(t), rbtree_nil_node(t));
        ev_open(op); ev_int("t", atoi(av[1])); ev_ints("sh", sh, nsh);
        ev_int("n", (long)rbtree_count(t)); ev_int("pok", pok); ev_close();
    }
#endif
    else vh_die(op);
}
void vh_script_end(void)
{
    for (int i = 0; i < NT; ++i)
        if (tr[i])
        {
            char b[8]; char* av[2] = { "free", b };
            snprintf(b, sizeof b, "%d", i);
            vh_op(2, av);
        }
    if (resource_release(allocator_resource_handle(alloc))) vh_lib("alloc");
    ev_open("end"); ev_int("live", vh_live); ev_close();
}
