/* Shared harness: script reader, event writer, fault injection, accounting. */
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <rcpr/status.h>
#include <rcpr/vtable.h>

/* ---- implemented by each driver ---- */
void vh_script_begin(void);
void vh_op(int argc, char** argv);
void vh_script_end(void);

/* ---- allocation accounting and fault injection (via --wrap) ---- */
extern long vh_live;     /* blocks the library holds */
extern int vh_fail_at;   /* 0: off; n: the n-th allocation from now fails */
extern int vh_fired;     /* set once an injected failure was delivered */
extern int vh_allocs;    /* allocations attempted since last arm */
extern int vh_arm_next;  /* from the "!n" prefix of the current op */
void* vh_xmalloc(size_t n); /* harness' own memory: unaccounted, never fails */
void vh_xfree(void* p);

/* run a library call under the op's injected fault, if there is one. */
#define LIB(stmt) \
    do { vh_fired = 0; vh_allocs = 0; vh_fail_at = vh_arm_next; stmt; \
         vh_fail_at = 0; vh_arm_next = 0; } while (0)

/* ---- events ---- */
void ev_open(const char* op);
void ev_int(const char* k, long v);
void ev_str(const char* k, const char* v);
void ev_ints(const char* k, const long* v, int n);
void ev_bytes(const char* k, const void* p, size_t n);
void ev_raw(const char* k, const char* json);
void ev_status(status s);         /* "st": name of the status */
void ev_statusk(const char* k, status s);
const char* vh_status_name(status s);
void ev_oom(void);                /* "oom": 1 iff an injected fault fired */
void ev_close(void);
void vh_die(const char* msg);     /* harness misuse: exit 3 */
void vh_lib(const char* msg);     /* the library failed a call that has no
                                     reason to fail: exit 5, a violation */
/* the code's state no longer matches what the script was made for: record
 * it (no specification allows the event) and abandon the script. */
void vh_diverged(const char* msg) __attribute__((noreturn));
void vh_alarm(int secs);

/* ---- tracked resources ---- */
#include <rcpr/resource.h>
#include <rcpr/resource/protected.h>
typedef struct tres
{
    RCPR_SYM(resource) hdr;
    int id;
    int key;
} tres;
#define TRES_MAX 80000
extern tres* vh_tres[TRES_MAX];    /* live ones by id */
RCPR_SYM(resource)* tres_new(int id, int key);
long tres_id(RCPR_SYM(resource)* r);   /* -1 for NULL */
void tres_drop(RCPR_SYM(resource)* r); /* harness disposes of one it owns */
void ev_rel(void);                 /* "rel": ids released since last ev_rel */
int vh_rel_count(void);
void vh_rel_reset(void);

/* drivers that run each script in a child process: keep the script's ops,
 * then run them there and collect what they recorded. */
void vh_defer(int argc, char** argv);
void vh_run_forked(void (*one)(int, char**), void (*finish)(void));
