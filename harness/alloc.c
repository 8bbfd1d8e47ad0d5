/* Driver for rcpr/allocator.h: bump allocators over caller regions (i) and
 * malloc allocators. */
#include "vh.h"
#include <rcpr/allocator.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;

#define NA 3
#define NB 512
typedef struct { uint8_t* p; size_t n; int id, zero; } blk;
static struct { allocator* a; char* raw; uint8_t* region; size_t size;
                int bump; blk b[NB]; int nb; } as[NA];
static int ids;

static void pat(uint8_t* p, size_t n, int id)
{
    for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)(id * 37 + i * 11 + (i >> 8));
}
static int pat_is(const uint8_t* p, size_t n, int id)
{
    for (size_t i = 0; i < n; ++i)
        if (p[i] != (uint8_t)(id * 37 + i * 11 + (i >> 8))) return 0;
    return 1;
}
void vh_script_begin(void) { memset(as, 0, sizeof as); ids = 0; }
/* every live block still holds what was put into it. */
static int intact(int i)
{
    for (int k = 0; k < as[i].nb; ++k)
        if (as[i].b[k].p && !pat_is(as[i].b[k].p, as[i].b[k].n, as[i].b[k].id))
            return 0;
    return 1;
}
static int A(const char* s, int live)
{
    int i = atoi(s);
    if (i < 0 || i >= NA || (as[i].a != NULL) != live) vh_diverged("allocator");
    return i;
}
static size_t sz(const char* s)   /* "max-3" or a number */
{
    if (!strncmp(s, "max-", 4)) return SIZE_MAX - strtoul(s + 4, 0, 10);
    return strtoul(s, 0, 10);
}
static long cap(size_t n) { return n > 1000000 ? 1000000 : (long)n; }
static blk* B(int i, const char* s)
{
    int k = atoi(s);
    if (k < 0 || k >= as[i].nb || !as[i].b[k].p) return NULL;
    return as[i].b + k;
}
static int probe(void)
{
    for (int n = 0; n < 400; ++n)
    {
        char* m = vh_xmalloc(512); allocator* a = NULL;
        status s = bump_allocator_create(&a, m, n);
        vh_xfree(m);
        if (!s) return n;
    }
    return -1;
}
void vh_op(int ac, char** av)
{
    const char* op = av[0];
    status s;
    /* the region was too small to make it. */
    if (strcmp(op, "probe") && strcmp(op, "bn") && strcmp(op, "mn")
      && !as[atoi(av[1]) % NA].a)
    {
        ev_open("none"); ev_int("i", atoi(av[1])); ev_close();
        return;
    }
    if (!strcmp(op, "probe"))
    {
        ev_open(op); ev_int("n", probe()); ev_close();
    }
    else if (!strcmp(op, "bn"))       /* bn i size misalignment(0|8) */
    {
        int i = A(av[1], 0);
        as[i].size = sz(av[2]);
        size_t mis = atoi(av[3]);
        as[i].raw = vh_xmalloc(as[i].size + mis);
        memset(as[i].raw, 0xEE, as[i].size + mis);
        as[i].region = (uint8_t*)as[i].raw + mis;
        as[i].bump = 1; as[i].nb = 0;
        allocator* a = (allocator*)1;
        LIB(s = bump_allocator_create(&a, as[i].region, as[i].size));
        as[i].a = s ? NULL : a;
        ev_open(op); ev_int("i", i); ev_int("n", (long)as[i].size);
        ev_int("al", (long)((uintptr_t)as[i].region % 16)); ev_status(s);
        ev_int("null", a == NULL); ev_close();
        if (s) { vh_xfree(as[i].raw); as[i].raw = NULL; }
    }
    else if (!strcmp(op, "mn"))
    {
        int i = A(av[1], 0); allocator* a = (allocator*)1;
        as[i].bump = 0; as[i].nb = 0;
        LIB(s = malloc_allocator_create(&a));
        as[i].a = s ? NULL : a;
        ev_open(op); ev_int("i", i); ev_status(s); ev_oom();
        ev_int("null", a == NULL); ev_close();
    }
    else if (!strcmp(op, "a"))        /* a i size */
    {
        int i = A(av[1], 1); size_t n = sz(av[2]); void* p = (void*)1;
        LIB(s = allocator_allocate(as[i].a, &p, n));
        ev_open(op); ev_int("i", i); ev_int("n", cap(n)); ev_status(s);
        ev_oom(); ev_int("null", p == NULL);
        long off = -1;
        if (!s)
        {
            if (as[i].bump) off = cap((size_t)((uint8_t*)p - as[i].region));
            if (as[i].nb < NB && n < 1000000)
            {
                blk* b = as[i].b + as[i].nb++;
                b->p = p; b->n = n; b->id = ++ids;
                if (!as[i].bump
                  || (off >= 0 && (size_t)off + n <= as[i].size)) pat(p, n, b->id);
            }
        }
        ev_int("off", off); ev_int("b", as[i].nb - 1);
        ev_int("same", intact(i)); ev_close();
    }
    else if (!strcmp(op, "l"))        /* l i block size : reallocate */
    {
        int i = A(av[1], 1); blk* b = B(i, av[2]); size_t n = sz(av[3]);
        if (!b) { ev_open("nob"); ev_int("i", i); ev_int("b", atoi(av[2]));
                  ev_close(); return; }
        void* p = b->p;
        LIB(s = allocator_reallocate(as[i].a, &p, n));
        size_t keep = n < b->n ? n : b->n;
        ev_open(op); ev_int("i", i); ev_int("b", atoi(av[2]));
        ev_int("n", cap(n)); ev_status(s); ev_oom();
        if (s) { ev_int("same", p == b->p && intact(i)); }
        else
        {
            int ok = pat_is(p, keep, b->id);
            b->p = p; b->n = n;
            if (n < 1000000) pat(p, n, b->id);
            ev_int("same", ok && intact(i));
        }
        ev_close();
    }
    else if (!strcmp(op, "f"))        /* f i block : reclaim */
    {
        int i = A(av[1], 1); blk* b = B(i, av[2]);
        if (!b) { ev_open("nob"); ev_int("i", i); ev_int("b", atoi(av[2]));
                  ev_close(); return; }
        LIB(s = allocator_reclaim(as[i].a, b->p));
        if (!as[i].bump) b->p = NULL;
        ev_open(op); ev_int("i", i); ev_int("b", atoi(av[2])); ev_status(s);
        ev_int("same", intact(i)); ev_close();
    }
    else if (!strcmp(op, "k"))        /* k i key : control; "reset" or number */
    {
        int i = A(av[1], 1);
        int reset = !strcmp(av[2], "reset");
        int key = reset ? RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET
                        : RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET
                              + 1 + atoi(av[2]);
        LIB(s = allocator_control(as[i].a, key, NULL, 0));
        ev_open(op); ev_int("i", i); ev_int("reset", reset); ev_status(s);
        ev_int("same", intact(i)); ev_close();
        if (!s) as[i].nb = 0;
    }
    else if (!strcmp(op, "r"))
    {
        int i = A(av[1], 1);
        LIB(s = resource_release(allocator_resource_handle(as[i].a)));
        ev_open(op); ev_int("i", i); ev_status(s);
        /* the region is the caller's, and what was allocated stays. */
        ev_int("same", as[i].bump ? intact(i) : 1); ev_close();
        as[i].a = NULL; as[i].nb = 0;
        if (as[i].raw) vh_xfree(as[i].raw);
        as[i].raw = NULL;
    }
    else vh_die("unknown op");
}
void vh_script_end(void)
{
    for (int i = 0; i < NA; ++i)
        if (as[i].a)
        {
            if (!as[i].bump)
                for (int k = 0; k < as[i].nb; ++k)
                    if (as[i].b[k].p
                      && allocator_reclaim(as[i].a, as[i].b[k].p)) vh_lib("reclaim");
            if (resource_release(allocator_resource_handle(as[i].a)))
                vh_lib("release");
            if (as[i].raw) vh_xfree(as[i].raw);
        }
    ev_open("end"); ev_int("live", vh_live); ev_close();
}
