/* Method tables that are not the program's.  Included after the RCPR_IMPORT
 * lines of a driver; only of use where the library checks tables
 * (RCPR_VTABLE_RUNTIME_ENFORCEMENT). */
#pragma once
static int fcalls;      /* functions called through a forged table */
static status fg_any(void) { ++fcalls; return STATUS_SUCCESS; }
/* as many entries as the largest table has, each of which counts. */
#define FG_SLOTS 16
typedef status (*fg_fn)(void);
#define FG1 &fg_any
#define FG4 FG1, FG1, FG1, FG1
static const fg_fn fg_static[FG_SLOTS] = { FG4, FG4, FG4, FG4 };
static fg_fn fg_data[FG_SLOTS] = { FG4, FG4, FG4, FG4 };
static fg_fn* fg_heap;
/* place 0: heap, 1: constants, 2: data, 3: right after the program's tables,
 * 4: right before them. */
static const void* forged_table(int place)
{
    if (!fg_heap) fg_heap = vh_xmalloc(sizeof fg_static);
    memcpy(fg_heap, fg_static, sizeof fg_static);
    switch (place)
    {
    case 0: return fg_heap;
    case 1: return fg_static;
    case 2: return fg_data;
    case 3: return &__stop_rcpr_vtable;
    default: return (const char*)&__start_rcpr_vtable - 1;
    }
}
#ifdef RCPR_VTABLE_RUNTIME_ENFORCEMENT
#define FG_ON 1
#else
#define FG_ON 0
#endif
static void fg_allowed(void)
{ if (!FG_ON) vh_die("forged tables need a build that checks them"); }
