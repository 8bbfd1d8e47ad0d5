/* User-defined allocators that know their own blocks.  Included by drivers
 * after RCPR_IMPORT_allocator and RCPR_IMPORT_resource. */
#pragma once
#define NBLK 4096
typedef struct { resource hdr; int id; } ualloc;
static struct { void* p; int a; } blk[NBLK]; static int nblk, foreign;
static status ua_release(resource* r) { (void)r; return STATUS_SUCCESS; }
static void note(void* p, int a)
{
    if (nblk >= NBLK) vh_die("blocks");
    blk[nblk].p = p; blk[nblk++].a = a;
}
static int known(void* p, int a)   /* forget p; was it a's? */
{
    for (int i = 0; i < nblk; ++i)
        if (blk[i].p == p)
        {
            int is = blk[i].a == a;
            blk[i] = blk[--nblk];
            return is;
        }
    return 0;
}
extern void* __wrap_malloc(size_t);
static status ua_allocate(allocator* a, void** p, size_t n)
{
    *p = __wrap_malloc(n);
    if (!*p) return ERROR_GENERAL_OUT_OF_MEMORY;
    note(*p, ((ualloc*)a)->id);
    return STATUS_SUCCESS;
}
extern void __wrap_free(void*);
static int ua_refuse, ua_refused;   /* the n-th reclaim reports a failure */
#define UA_REFUSED ((status)0x7f000002)
static status ua_reclaim(allocator* a, void* p)
{
    if (!known(p, ((ualloc*)a)->id)) foreign++;
    __wrap_free(p);
    if (ua_refuse && !--ua_refuse) { ua_refused = 1; return UA_REFUSED; }
    return STATUS_SUCCESS;
}
extern void* __wrap_realloc(void*, size_t);
static status ua_reallocate(allocator* a, void** p, size_t n)
{
    void* q = __wrap_realloc(*p, n ? n : 1);
    if (!q) return ERROR_GENERAL_OUT_OF_MEMORY;
    if (!known(*p, ((ualloc*)a)->id)) foreign++;
    note(q, ((ualloc*)a)->id);
    *p = q;
    return STATUS_SUCCESS;
}
static status ua_control(allocator* a, int k, void* v, size_t n)
{ (void)a; (void)k; (void)v; (void)n; return ERROR_GENERAL_CONTROL_KEY_INVALID; }
RCPR_VTABLE allocator_vtable ua_vtable = {
    .hdr = { &ua_release }, .allocate_fn = &ua_allocate,
    .reclaim_fn = &ua_reclaim, .reallocate_fn = &ua_reallocate,
    .control_fn = &ua_control };
static ualloc ua[2];
static void ua_begin(void)
{
    foreign = nblk = ua_refuse = ua_refused = 0;
    for (int i = 0; i < 2; ++i)
    {
        resource_init(&ua[i].hdr, &ua_vtable.hdr);
        ua[i].id = i;
    }
}
static allocator* ua_get(int i) { return (allocator*)&ua[i & 1]; }
static inline int ua_blocks(int a)
{
    int n = 0;
    for (int i = 0; i < nblk; ++i) n += blk[i].a == (a & 1);
    return n;
}
