/* Driver for rcpr/slist.h (default), rcpr/list.h (-DUSE_LIST) and
 * rcpr/queue.h (-DUSE_QUEUE). */
#include "vh.h"
#include <rcpr/allocator.h>
#include <rcpr/list.h>
#include <rcpr/queue.h>
#include <rcpr/slist.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;
#if defined(USE_LIST)
RCPR_IMPORT_list;
# define C list
# define N list_node
# define F(x) list_##x
#elif defined(USE_QUEUE)
RCPR_IMPORT_queue;
# define C queue
# define F(x) queue_##x
#else
RCPR_IMPORT_slist;
# define C slist
# define N slist_node
# define F(x) slist_##x
#endif

#define NQ 3
static allocator* alloc;
static C* qs[NQ];

void vh_script_begin(void)
{
    memset(qs, 0, sizeof qs);
    if (malloc_allocator_create(&alloc)) vh_lib("allocator");
}
static C* Q(const char* s)
{
    int i = atoi(s);
    if (i < 0 || i >= NQ || !qs[i]) vh_diverged("bad queue");
    return qs[i];
}
static long kid(resource* r) { return r ? tres_id(r) : 0; }
#ifdef N
static N* nth(C* q, int i)
{
    N* n = NULL;
    if (F(head)(&n, q)) vh_lib("head");
    while (--i > 0 && n)
    {
        N* m = NULL;
        if (F(node_next)(&m, n)) vh_lib("next");
        n = m;
    }
    return n;
}
#endif
#define CAP 80000
static long fw[CAP];
static void insertion(const char* op, const char* q, int i, int v, status s,
                      resource* r)
{
    ev_open(op); ev_int("q", atoi(q)); if (i) ev_int("i", i);
    ev_int("v", v); ev_status(s); ev_oom(); ev_rel(); ev_close();
    if (s && vh_tres[v]) tres_drop(r);
}
void vh_op(int ac, char** av)
{
    const char* op = av[0];
    status s;
    if (!strcmp(op, "new"))
    {
        int i = atoi(av[1]); C* q = NULL;
        if (i < 0 || i >= NQ || qs[i]) vh_diverged("new");
        LIB(s = F(create)(&q, alloc));
        ev_open(op); ev_int("q", i); ev_status(s); ev_oom();
        ev_int("null", q == NULL); ev_rel(); ev_close();
        if (!s) qs[i] = q;
    }
    else if (!strcmp(op, "free"))
    {
        int i = atoi(av[1]); C* q = Q(av[1]);
        LIB(s = resource_release(F(resource_handle)(q)));
        qs[i] = NULL;
        ev_open(op); ev_int("q", i); ev_status(s); ev_rel(); ev_close();
    }
    else if (!strcmp(op, "ih") || !strcmp(op, "at"))
    {
        int v = atoi(av[2]); C* q = Q(av[1]);
        resource* r = tres_new(v, v);
#ifdef USE_QUEUE
        if (op[0] == 'i') LIB(s = queue_insert(q, r));
        else LIB(s = queue_append(q, r));
#else
        if (op[0] == 'i') LIB(s = F(insert_head)(q, r));
        else LIB(s = F(append_tail)(q, r));
#endif
        insertion(op, av[1], 0, v, s, r);
    }
    else if (!strcmp(op, "pop"))
    {
        C* q = Q(av[1]); resource* r = NULL;
        LIB(s = F(pop)(q, &r));
        ev_open(op); ev_int("q", atoi(av[1])); ev_status(s);
        ev_int("r", kid(r)); ev_rel(); ev_close();
        tres_drop(r);
    }
    else if (!strcmp(op, "fill"))       /* fill q v n: append v, v + 1, ... */
    {
        C* q = Q(av[1]); int v = atoi(av[2]), n = atoi(av[3]), i = 0;
        for (s = 0; i < n && !s; i += !s)
        {
            resource* r = tres_new(v + i, v + i);
#ifdef USE_QUEUE
            LIB(s = queue_append(q, r));
#else
            LIB(s = F(append_tail)(q, r));
#endif
            if (s) tres_drop(r);
        }
        ev_open(op); ev_int("q", atoi(av[1])); ev_int("v", v); ev_int("n", i);
        ev_status(s); ev_rel(); ev_close();
    }
    else if (!strcmp(op, "drain"))      /* drain q n: pop as many */
    {
        C* q = Q(av[1]); int n = atoi(av[2]), i = 0;
        if (n > CAP) vh_die("drain");
        for (s = 0; i < n && !s; ++i)
        {
            resource* r = NULL;
            LIB(s = F(pop)(q, &r));
            fw[i] = kid(r);
            tres_drop(r);
        }
        ev_open(op); ev_int("q", atoi(av[1])); ev_status(s);
        ev_ints("r", fw, i); ev_rel(); ev_close();
    }
    else if (!strcmp(op, "count"))
    {
        C* q = Q(av[1]);
        ev_open(op); ev_int("q", atoi(av[1]));
        ev_int("n", (long)F(count)(q)); ev_close();
    }
#ifdef N
    else if (!strcmp(op, "clear"))
    {
        C* q = Q(av[1]);
        LIB(s = F(clear)(q));
        ev_open(op); ev_int("q", atoi(av[1])); ev_status(s); ev_rel();
        ev_close();
    }
    else if (!strcmp(op, "swap"))
    {
        C* a = Q(av[1]); C* b = Q(av[2]);
        LIB(F(swap)(a, b));
        ev_open(op); ev_int("q", atoi(av[1])); ev_int("u", atoi(av[2]));
        ev_rel(); ev_close();
    }
    else if (!strcmp(op, "walk"))
    {
        C* q = Q(av[1]); N* n = NULL; N* p = NULL; int k = 0;
        resource* r = NULL; long h = -1, t = -1;
        if (F(head)(&n, q)) vh_lib("head");
        if (n) { if (F(node_child)(&r, n)) vh_lib("child"); h = kid(r); }
        ev_open(op); ev_int("q", atoi(av[1]));
        while (n && k < CAP)
        {
            r = NULL;
            if (F(node_child)(&r, n)) vh_lib("child");
            fw[k++] = kid(r);
            p = n; n = NULL;
            if (F(node_next)(&n, p)) vh_lib("next");
        }
        ev_ints("f", fw, k);
        if (F(tail)(&n, q)) vh_lib("tail");
        if (n) { r = NULL; if (F(node_child)(&r, n)) vh_lib("child"); t = kid(r); }
# ifdef USE_LIST
        k = 0;
        while (n && k < CAP)
        {
            r = NULL;
            if (F(node_child)(&r, n)) vh_lib("child");
            fw[k++] = kid(r);
            p = n; n = NULL;
            if (F(node_prev)(&n, p)) vh_lib("prev");
        }
        ev_ints("b", fw, k);
# endif
        ev_int("h", h); ev_int("t", t);
        ev_int("n", (long)F(count)(q)); ev_close();
    }
    else
    {
        C* q = Q(av[1]); int i = atoi(av[2]); N* n = nth(q, i);
        if (!n)
        {
            ev_open("none"); ev_int("q", atoi(av[1])); ev_int("i", i);
            ev_close();
        }
        else if (!strcmp(op, "ap") || !strcmp(op, "ib"))
        {
            int v = atoi(av[3]); resource* r = tres_new(v, v);
            if (op[0] == 'a') LIB(s = F(append)(n, r));
# ifdef USE_LIST
            else LIB(s = F(insert)(n, r));
# endif
            insertion(op, av[1], i, v, s, r);
        }
        else if (!strcmp(op, "cs"))
        {
            int v = atoi(av[3]); resource* r = v ? tres_new(v, v) : NULL;
            LIB(s = F(node_child_swap)(n, &r));
            ev_open(op); ev_int("q", atoi(av[1])); ev_int("i", i);
            ev_int("v", v); ev_status(s); ev_int("r", kid(r)); ev_rel();
            ev_close();
            tres_drop(r);
        }
# ifndef USE_LIST
        else if (!strcmp(op, "np"))
        {
            resource* r = NULL;
            LIB(s = slist_node_next_pop(n, &r));
            ev_open(op); ev_int("q", atoi(av[1])); ev_int("i", i);
            ev_status(s); ev_int("r", kid(r)); ev_rel(); ev_close();
            tres_drop(r);
        }
# endif
        else vh_die(op);
    }
#else
    else vh_die(op);
#endif
}
void vh_script_end(void)
{
    for (int i = 0; i < NQ; ++i)
        if (qs[i])
        {
            char b[8]; char* av[2] = { "free", b };
            snprintf(b, sizeof b, "%d", i);
            vh_op(2, av);
        }
    if (resource_release(allocator_resource_handle(alloc))) vh_lib("alloc");
    ev_open("end"); ev_int("live", vh_live); ev_close();
}
