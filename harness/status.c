/* Driver for rcpr/status.h, rcpr/component.h and rcpr/control.h.  The names
 * it knows come from status_names.h, which the check makes from what the
 * headers define. */
#include "vh.h"
#include <rcpr/component.h>
#include <rcpr/control.h>
#include <rcpr/status.h>

#define X(n, c) { #n, n, c },
static const struct { const char* n; status s; long comp; } codes[] = {
#define ERRORS
#include "status_names.h"
#undef ERRORS
};
#undef X
#define X(n) { #n, n },
static const struct { const char* n; long c; } comps[] = {
#define COMPONENTS
#include "status_names.h"
#undef COMPONENTS
};
static const struct { const char* n; long c; } fams[] = {
#define FAMILIES
#include "status_names.h"
#undef FAMILIES
};
#undef X

/* ---- routines ---- */
#define MAX 5
static long log_[64]; static int nlog;
static long va[MAX + 1], vr[MAX + 1]; static int n;
static status step(int i)
{
    if (i > n) return STATUS_SUCCESS;
    if (nlog < 64) log_[nlog++] = i;
    return (status)va[i];
}
static status undo(int i)
{
    if (i > n) return STATUS_SUCCESS;
    if (nlog < 64) log_[nlog++] = -i;
    return (status)vr[i];
}
static int zero;
/* what the macros are given is an expression of any kind. */
static status plain(int keep)
{
    CONTROL_PREAMBLE;
    TRY_OR_FAIL(step(1), done);
    TRY_OR_FAIL(step(2), undo1);
    TRY_OR_FAIL(step(3), undo2);
    TRY_OR_FAIL(step(4), undo3);
    TRY_OR_FAIL(step(5), undo4);
    if (keep) goto done;
    CLEANUP_OR_CASCADE(undo(5));
undo4:
    CLEANUP_OR_CASCADE(undo(4));
undo3:
    CLEANUP_OR_CASCADE(undo(3));
undo2:
    CLEANUP_OR_CASCADE(undo(2));
undo1:
    CLEANUP_OR_CASCADE(undo(1));
done:
    return retval;
}
static status odd(int keep)
{
    CONTROL_PREAMBLE;
    TRY_OR_FAIL(zero ? 99 : step(1), done);
    TRY_OR_FAIL((zero++, step(2)), undo1);
    zero = 0;
    TRY_OR_FAIL(step(3) | zero, undo2);
    status x;
    TRY_OR_FAIL(x = step(4), undo3);
    for (int i = 5; i <= 5; ++i)
    {
        TRY_OR_FAIL(step(i), undo4);
    }
    if (keep) goto done;
    CLEANUP_OR_CASCADE(zero ? 99 : undo(5));
undo4:
    CLEANUP_OR_CASCADE((zero = 0, undo(4)));
undo3:
    CLEANUP_OR_CASCADE(undo(3) | zero);
undo2:
    zero = 0;
    CLEANUP_OR_CASCADE(undo(2));
undo1:
    zero = 0;
    CLEANUP_OR_CASCADE(undo(1));
done:
    zero = 0;
    return retval;
}

void vh_script_begin(void) { }
void vh_op(int ac, char** av)
{
    const char* op = av[0];
    if (!strcmp(op, "names"))
    {
        for (size_t i = 0; i < sizeof codes / sizeof *codes; ++i)
        {
            ev_open("code"); ev_str("name", codes[i].n);
            ev_int("x", codes[i].s); ev_int("comp", codes[i].comp); ev_close();
        }
        for (size_t i = 0; i < sizeof comps / sizeof *comps; ++i)
        {
            ev_open("comp"); ev_str("name", comps[i].n);
            ev_int("x", comps[i].c); ev_int("family", COMPONENT_FAMILY_RCPR);
            ev_close();
        }
        for (size_t i = 0; i < sizeof fams / sizeof *fams; ++i)
        {
            ev_open("family"); ev_str("name", fams[i].n);
            ev_int("x", fams[i].c); ev_close();
        }
        ev_open("okay"); ev_int("x", STATUS_SUCCESS); ev_close();
    }
    else if (!strcmp(op, "mk"))
    {
        long e = atol(av[1]), c = atol(av[2]), r = atol(av[3]);
        int k = atoi(av[4]); status x;
        if (!k) x = STATUS_CODE(e, c, r);
        else if (k == 1) x = STATUS_CODE(zero | e, zero ^ c, zero ? 5 : r);
        else x = STATUS_CODE((int)e, (unsigned)c, (unsigned short)r);
        ev_open(op); ev_int("e", e); ev_int("c", c); ev_int("r", r);
        ev_int("x", x); ev_close();
    }
    else if (!strcmp(op, "cm"))
    {
        int f = atoi(av[1]), p = atoi(av[2]);
        ev_open(op); ev_int("f", f); ev_int("p", p);
        ev_int("x", atoi(av[3]) ? COMPONENT_MAKE(zero | f, zero ^ p)
                                : COMPONENT_MAKE(f, p)); ev_close();
    }
    else if (!strcmp(op, "run"))     /* run how keep a1..an r1..rn */
    {
        int keep = atoi(av[2]); n = (ac - 3) / 2;
        if (n > MAX) vh_die("too many steps");
        for (int i = 1; i <= n; ++i)
        { va[i] = atol(av[2 + i]); vr[i] = atol(av[2 + n + i]); }
        nlog = 0;
        status st = atoi(av[1]) ? odd(keep) : plain(keep);
        ev_open(op); ev_int("keep", keep); ev_ints("a", va + 1, n);
        ev_ints("r", vr + 1, n); ev_ints("log", log_, nlog);
        ev_int("ret", st); ev_close();
    }
    else vh_die(op);
}
void vh_script_end(void)
{
    ev_open("end"); ev_int("live", vh_live); ev_close();
}
