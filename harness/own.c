/* Driver for ownership across containers: lists, queues, trees and messages
 * that hold each other and plain resources, made from two different
 * allocators.  Every release of an object, nested or not, is recorded, and so
 * is every block that is handed back to an allocator it did not come from. */
#include "vh.h"
#include <rcpr/allocator.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_compare;
RCPR_IMPORT_list;
RCPR_IMPORT_message;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_resource;
RCPR_IMPORT_slist;
#include "ualloc.h"
#include "forge.h"

#define NO 400
enum { NONE, LEAF, SLIST, LIST, QUEUE, TREE, MSG };
static const char* kinds[] = { "none", "leaf", "slist", "list", "queue",
                               "tree", "msg" };
/* a plain resource of the driver's own. */
typedef struct { resource hdr; int id; int bad; } leaf;
static struct { int kind, owned /* by */, al; resource* r; void* obj;
                const resource_vtable *real, *kept /* while forged */; } ob[NO];
static long rels[NO * 4]; static int nrels, twice;

/* ---- releases ---- */
static int find(const resource* r)
{
    for (int i = 1; i < NO; ++i) if (ob[i].r == r) return i;
    return 0;
}
#define BAD_RELEASE ((status)0x7f000001)
static status on_release(resource* r)
{
    int i = find(r);
    if (!i) { ++twice; return STATUS_SUCCESS; }
    if (nrels < NO * 4) rels[nrels++] = i;
    ob[i].r = NULL;
    int k = ob[i].kind;
    ob[i].kind = NONE;
    if (k == LEAF)
    {
        leaf* l = (leaf*)r; int bad = l->bad;
        vh_xfree(l);
        return bad ? BAD_RELEASE : STATUS_SUCCESS;
    }
    return ob[i].real->release(r);
}
static long id_of(resource* r) { return r ? find(r) : 0; }

static rcpr_comparison_result cmp(void* c, const void* x, const void* y)
{
    (void)c;
    int a = *(const int*)x, b = *(const int*)y;
    return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
static int ids[NO];
static const void* keyof(void* c, const resource* r)
{ (void)c; return &ids[find(r)]; }

RCPR_VTABLE resource_vtable my_vtable = { &on_release };
static int N(const char* s)
{
    int i = atoi(s);
    if (i < 0 || i >= NO) vh_die("object id");
    return i;
}
static int want(const char* s, int kind)
{
    int i = N(s);
    if (!ob[i].r || (kind && ob[i].kind != kind)) vh_diverged("no such object");
    return i;
}
static void reg(int i, int kind, resource* r, void* obj)
{
    ob[i].kind = kind; ob[i].r = r; ob[i].owned = 0; ob[i].obj = obj; ob[i].al = -1; ob[i].kept = NULL;
    if (kind == LEAF) return;
    /* interpose on the object's release. */
    ob[i].real = r->vtable;
    r->vtable = &my_vtable;
}
static int nforged, forgedal;
void vh_script_begin(void)
{
    memset(ob, 0, sizeof ob);
    nrels = twice = fcalls = 0; nforged = 0; forgedal = -1;
    ua_begin();
    for (int i = 0; i < NO; ++i) ids[i] = i;
}
static void got(resource* r) { if (r) ob[find(r)].owned = 0; }
static int holds(int c, int y);
/* a forged object whose container is gone, or let go of it, is left over. */
static void strand(const char* op)
{
    for (int y = 1; nforged && y < NO; ++y)
    {
        int c = ob[y].owned;
        if (!ob[y].r || !c) continue;
        if (!ob[c].r || ((op[0] == 'c' || op[0] == 'd') && !holds(c, y)))
            ob[y].owned = 0;
    }
}
static void fin(status s)
{
    ev_int("fc", fcalls);
    ev_status(s); ev_oom(); ev_ints("rel", rels, nrels); nrels = 0;
    ev_int("rcf", ua_refused); ua_refuse = ua_refused = 0;
    ev_int("foreign", foreign); ev_int("twice", twice); ev_close();
    fcalls = 0;
}
static void* nth(int c, int i)
{
    void* n = NULL;
    if (ob[c].kind == SLIST)
    {
        slist_node* m = NULL;
        if (slist_head(&m, (slist*)ob[c].obj)) vh_lib("head");
        while (--i > 0 && m)
        {
            slist_node* x = NULL;
            if (slist_node_next(&x, m)) vh_lib("next");
            m = x;
        }
        n = m;
    }
    else
    {
        list_node* m = NULL;
        if (list_head(&m, (list*)ob[c].obj)) vh_lib("head");
        while (--i > 0 && m)
        {
            list_node* x = NULL;
            if (list_node_next(&x, m)) vh_lib("next");
            m = x;
        }
        n = m;
    }
    return n;
}
#define H(i) (ob[i].obj)
static int holds(int c, int y)
{
    resource* r = NULL;
    if (ob[c].kind == TREE)
    {
        LIB(if (rbtree_find(&r, H(c), &ids[y])) r = NULL);
        return r == ob[y].r;
    }
    for (int i = 1; ob[c].kind == SLIST || ob[c].kind == LIST; ++i)
    {
        void* n = nth(c, i);
        if (!n) return 0;
        status s = ob[c].kind == SLIST ? slist_node_child(&r, n)
                                       : list_node_child(&r, n);
        if (s) vh_lib("child");
        if (r == ob[y].r) return 1;
    }
    return 1;
}
/* with an allocator's table forged, what uses it to take blocks only. */
static void fa(int c)
{ if (FG_ON) ev_int("fa", forgedal >= 0 && ob[c].al == forgedal); }
void vh_op(int ac, char** av)
{
    const char* op = av[0];
    status s = STATUS_SUCCESS;
    if (forgedal >= 0 && (!strcmp(op, "pop") || !strcmp(op, "take") || !strcmp(op, "drop")
                          || !strcmp(op, "np") || !strcmp(op, "clear")
                          || !strcmp(op, "free")))
        vh_diverged("an allocator is forged");
    if (!strcmp(op, "forge"))           /* forge ID [PLACE] */
    {
        int i = want(av[1], 0);
        fg_allowed();
        if (ob[i].kept) vh_diverged("already forged");
        ob[i].kept = ob[i].r->vtable;
        ob[i].r->vtable = forged_table(ac > 2 ? atoi(av[2]) : 0);
        ++nforged;
        ev_open(op); ev_int("i", i); ev_close();
        return;
    }
    if (!strcmp(op, "mend"))
    {
        for (int i = 1; i < NO; ++i)
            if (ob[i].kept)
            { if (ob[i].r) ob[i].r->vtable = ob[i].kept; ob[i].kept = NULL; }
        if (forgedal >= 0)
            ((resource*)ua_get(forgedal))->vtable = (const resource_vtable*)&ua_vtable;
        nforged = 0; forgedal = -1;
        ev_open(op); ev_close();
        return;
    }
    if (!strcmp(op, "fa"))              /* fa ALLOC [PLACE]: forge an allocator */
    {
        fg_allowed();
        if (forgedal >= 0) vh_diverged("one at a time");
        forgedal = atoi(av[1]) & 1;
        ((resource*)ua_get(forgedal))->vtable = forged_table(ac > 2 ? atoi(av[2]) : 0);
        return;
    }
    if (!strcmp(op, "leaf"))            /* leaf ID [bad] */
    {
        int i = N(av[1]);
        if (ob[i].r) vh_diverged("id in use");
        leaf* l = vh_xmalloc(sizeof *l);
        resource_init(&l->hdr, &my_vtable);
        l->id = i; l->bad = ac > 2 ? atoi(av[2]) : 0;
        reg(i, LEAF, &l->hdr, l);
        ev_open(op); ev_int("i", i); ev_int("b", l->bad); ev_close();
    }
    else if (!strcmp(op, "ru"))         /* ru N: reclaim N fails, next op */
        ua_refuse = atoi(av[1]);
    else if (!strcmp(op, "new"))        /* new ID KIND ALLOC [PAYLOAD] */
    {
        int i = N(av[1]), k = 0, pl = ac > 4 ? N(av[4]) : 0;
        if (ob[i].r) vh_diverged("id in use");
        allocator* a = ua_get(atoi(av[3]));
        resource* r = NULL; void* o = NULL;
        while (strcmp(kinds[k], av[2])) if (++k > MSG) vh_die("kind");
        if (pl) want(av[4], 0);
        if (k == SLIST)
        {
            slist* x = NULL; LIB(s = slist_create(&x, a));
            if (!s) r = slist_resource_handle(o = x);
        }
        else if (k == LIST)
        {
            list* x = NULL; LIB(s = list_create(&x, a));
            if (!s) r = list_resource_handle(o = x);
        }
        else if (k == QUEUE)
        {
            queue* x = NULL; LIB(s = queue_create(&x, a));
            if (!s) r = queue_resource_handle(o = x);
        }
        else if (k == TREE)
        {
            rbtree* x = NULL; LIB(s = rbtree_create(&x, a, &cmp, &keyof, NULL));
            if (!s) r = rbtree_resource_handle(o = x);
        }
        else if (k == MSG)
        {
            message* x = NULL;
            LIB(s = message_create(&x, a, 7, pl ? ob[pl].r : NULL));
            if (!s) r = message_resource_handle(o = x);
        }
        if (!s) { reg(i, k, r, o); ob[i].al = atoi(av[3]) & 1; if (pl) ob[pl].owned = i; }
        ev_open(op); ev_int("i", i); ev_str("k", av[2]); ev_int("x", pl);
        if (FG_ON) ev_int("fa", forgedal == (atoi(av[3]) & 1));
        fin(s);
    }
    else if (!strcmp(op, "put") || !strcmp(op, "puth"))
    {
        int c = want(av[1], 0), x = want(av[2], 0);
        int head = op[3] == 'h';
        resource* r = ob[x].r;
        switch (ob[c].kind)
        {
        case SLIST: LIB(s = head ? slist_insert_head(H(c), r)
                              : slist_append_tail(H(c), r)); break;
        case LIST: LIB(s = head ? list_insert_head(H(c), r)
                             : list_append_tail(H(c), r)); break;
        case QUEUE: LIB(s = head ? queue_insert(H(c), r)
                              : queue_append(H(c), r)); break;
        case TREE: LIB(s = rbtree_insert(H(c), r)); break;
        default: vh_diverged("put into");
        }
        ev_open(op); ev_int("c", c); ev_int("x", x); if (!s) ob[x].owned = c; fa(c); fin(s);
    }
    else if (!strcmp(op, "pop"))        /* head, or a message's payload */
    {
        int c = want(av[1], 0); resource* r = NULL;
        switch (ob[c].kind)
        {
        case SLIST: LIB(s = slist_pop(H(c), &r)); break;
        case LIST: LIB(s = list_pop(H(c), &r)); break;
        case QUEUE: LIB(s = queue_pop(H(c), &r)); break;
        case MSG: LIB(r = message_payload(H(c), true)); break;
        default: vh_diverged("pop");
        }
        ev_open(op); ev_int("c", c); ev_int("r", id_of(r)); got(r); fin(s);
    }
    else if (!strcmp(op, "peek"))
    {
        int c = want(av[1], MSG); resource* r = NULL;
        LIB(r = message_payload(H(c), false));
        ev_open(op); ev_int("c", c); ev_int("r", id_of(r)); fin(s);
    }
    else if (!strcmp(op, "take") || !strcmp(op, "drop"))  /* tree entries */
    {
        int c = want(av[1], TREE), x = N(av[2]); resource* r = NULL;
        int take = op[0] == 't';
        if (ac > 3 && atoi(av[3]))      /* by node */
        {
            rbtree* t = H(c);
            rbtree_node* nil = rbtree_nil_node(t);
            rbtree_node* n = rbtree_root_node(t);
            if (n != nil) n = rbtree_minimum_node(t, n);
            while (n != nil && find(rbtree_node_value(t, n)) != x)
                n = rbtree_successor_node(t, n);
            if (n == nil) vh_diverged("no such entry");
            LIB(s = rbtree_delete_node(take ? &r : NULL, t, n));
        }
        else LIB(s = rbtree_delete(take ? &r : NULL, H(c), &ids[x]));
        ev_open(op); ev_int("c", c); ev_int("x", x); ev_int("r", id_of(r));
        got(r); fin(s); if (!take) strand(op);
    }
    else if (!strcmp(op, "cs"))         /* cs C I X: exchange node I's child */
    {
        int c = want(av[1], 0), i = atoi(av[2]), x = N(av[3]);
        if (ob[c].kind != SLIST && ob[c].kind != LIST) vh_diverged("cs");
        if (x) want(av[3], 0);
        resource* r = x ? ob[x].r : NULL;
        void* n = nth(c, i);
        if (!n) vh_diverged("no such node");
        if (ob[c].kind == SLIST) LIB(s = slist_node_child_swap(n, &r));
        else LIB(s = list_node_child_swap(n, &r));
        ev_open(op); ev_int("c", c); ev_int("n", i); ev_int("x", x);
        ev_int("r", id_of(r)); got(r); if (x && !s) ob[x].owned = c;
        fin(s);
    }
    else if (!strcmp(op, "np"))         /* pop after node I of a slist */
    {
        int c = want(av[1], SLIST), i = atoi(av[2]); resource* r = NULL;
        void* n = nth(c, i);
        if (!n) vh_diverged("no such node");
        LIB(s = slist_node_next_pop(n, &r));
        ev_open(op); ev_int("c", c); ev_int("n", i); ev_int("r", id_of(r));
        got(r); fin(s);
    }
    else if (!strcmp(op, "ap") || !strcmp(op, "ib"))  /* beside node I */
    {
        int c = want(av[1], 0), i = atoi(av[2]), x = want(av[3], 0);
        resource* r = ob[x].r;
        if (ob[c].kind != SLIST && ob[c].kind != LIST) vh_diverged("ap");
        void* n = nth(c, i);
        if (!n) vh_diverged("no such node");
        if (ob[c].kind == SLIST) LIB(s = slist_append(n, r));
        else if (op[0] == 'a') LIB(s = list_append(n, r));
        else LIB(s = list_insert(n, r));
        ev_open(op); ev_int("c", c); ev_int("n", i); ev_int("x", x); if (!s) ob[x].owned = c; fa(c); fin(s);
    }
    else if (!strcmp(op, "clear"))
    {
        int c = want(av[1], 0);
        switch (ob[c].kind)
        {
        case SLIST: LIB(s = slist_clear(H(c))); break;
        case LIST: LIB(s = list_clear(H(c))); break;
        case TREE: LIB(s = rbtree_clear(H(c))); break;
        default: vh_diverged("clear");
        }
        size_t left = 0;
        switch (ob[c].kind)
        {
        case SLIST: LIB(left = slist_count(H(c))); break;
        case LIST: LIB(left = list_count(H(c))); break;
        case TREE: LIB(left = rbtree_count(H(c))); break;
        }
        ev_open(op); ev_int("c", c); ev_int("left", left); fin(s); strand(op);
    }
    else if (!strcmp(op, "swap"))
    {
        int c = want(av[1], 0), d = want(av[2], ob[c].kind);
        /* only contents are exchanged; put the interposed headers back in
         * case whole structures were. */
        const resource_vtable *vc = ob[c].r->vtable, *vd = ob[d].r->vtable;
        switch (ob[c].kind)
        {
        case SLIST: LIB(slist_swap(H(c), H(d))); break;
        case LIST: LIB(list_swap(H(c), H(d))); break;
        case TREE: LIB(rbtree_swap(H(c), H(d))); break;
        default: vh_diverged("swap");
        }
        ob[c].r->vtable = vc; ob[d].r->vtable = vd;
        for (int i = 1; i < NO; ++i)
            if (ob[i].r && c != d)
                ob[i].owned = ob[i].owned == c ? d : ob[i].owned == d ? c : ob[i].owned;
        ev_open(op); ev_int("c", c); ev_int("d", d); fin(s);
    }
    else if (!strcmp(op, "free"))
    {
        int i = want(av[1], 0);
        if (ob[i].owned) vh_diverged("not the caller's");
        LIB(s = resource_release(ob[i].r));
        ev_open(op); ev_int("i", i); fin(s); strand(op);
    }
    else vh_die(op);
}
void vh_script_end(void)
{
    if (FG_ON)
    {
        char* av[1] = { "mend" };
        vh_op(1, av);
    }
    for (int i = 1; i < NO; ++i)
        if (ob[i].r && !ob[i].owned)
        {
            char b[16]; char* av[2] = { "free", b };
            snprintf(b, sizeof b, "%d", i);
            vh_op(2, av);
        }
    ev_open("end"); ev_int("fc", fcalls); ev_int("live", vh_live); ev_int("blocks", nblk);
    ev_int("foreign", foreign); ev_int("twice", twice); ev_close();
}
