/* Driver for rcpr/string.h and rcpr/uuid.h.  Strings are given in hex, "-"
 * is empty and "~" is NULL.  Each lives in an allocation of its exact size. */
#include "vh.h"
#include <rcpr/allocator.h>
#include <rcpr/string.h>
#include <rcpr/uuid.h>

RCPR_IMPORT_allocator;
RCPR_IMPORT_resource;
RCPR_IMPORT_string_as(s);
RCPR_IMPORT_uuid;

static allocator* alloc;
static int hexd(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
/* a fresh, exactly sized, terminated copy. */
static char* S(const char* h, size_t* n, int term)
{
    if (!strcmp(h, "~")) { if (n) *n = 0; return NULL; }
    size_t k = !strcmp(h, "-") ? 0 : strlen(h) / 2;
    char* p = vh_xmalloc(k + term);
    for (size_t i = 0; i < k; ++i) p[i] = hexd(h[2*i]) * 16 + hexd(h[2*i+1]);
    if (term) p[k] = 0;
    if (n) *n = k;
    return p;
}
static void ev_s(const char* k, const char* p) { ev_bytes(k, p, strlen(p)); }
static char tokens[256];
static bool is_token(int ch) { return ch > 0 && ch < 128 && tokens[ch]; }

void vh_script_begin(void)
{
    if (malloc_allocator_create(&alloc)) vh_lib("allocator");
}
void vh_op(int ac, char** av)
{
    const char* op = av[0];
    status s; size_t n;
    if (!strcmp(op, "ws"))
    {
        long v[2048]; int k = 0;
        for (int c = -300; c < 600; ++c)
            if (s_is_whitespace(c)) v[k++] = c;
        ev_open(op); ev_ints("v", v, k); ev_close();
    }
    else if (!strcmp(op, "lt") || !strcmp(op, "rt") || !strcmp(op, "tm")
          || !strcmp(op, "ch"))
    {
        char* p = S(av[1], &n, 1);
        ev_open(op); ev_bytes("in", p, n);
        if (op[0] == 'l') LIB(s_left_trim(p));
        else if (op[0] == 'r') LIB(s_right_trim(p));
        else if (op[0] == 't') LIB(s_trim(p));
        else LIB(s_chomp(p));
        ev_s("out", p); ev_close();
        vh_xfree(p);
    }
    else if (!strcmp(op, "wd") || !strcmp(op, "ms"))  /* ms string tokens */
    {
        char* p = S(av[1], &n, 1); s_string_iterator it;
        memset(&it, 0x5A, sizeof it);
        memset(tokens, 0, sizeof tokens);
        ev_open(op); ev_bytes("in", p, n);
        if (op[0] == 'm')
        {
            size_t k; char* t = S(av[2], &k, 1);
            for (size_t i = 0; i < k; ++i) tokens[(unsigned char)t[i]] = 1;
            ev_bytes("tok", t, k);
            vh_xfree(t);
        }
        static char json[1 << 16]; int j = 0, first = 1, inside = 1, extra = 0;
        json[j++] = '[';
        const char* w = NULL; char* from = p;
        for (;;)
        {
            w = (const char*)1;
            if (op[0] == 'w') LIB(s = s_words(&w, &it, from));
            else LIB(s = s_multisplit(&w, &it, from, &is_token));
            from = NULL;
            if (s) { if (++extra == 3) break; continue; }
            if (extra) { inside = 0; break; }    /* none after the end */
            if (w < p || w > p + n) { inside = 0; break; }
            if (!first) json[j++] = ',';
            first = 0; json[j++] = '[';
            for (const char* q = w; *q; ++q)
                j += snprintf(json + j, 8, q == w ? "%d" : ",%d",
                              (unsigned char)*q);
            json[j++] = ']';
            if (j > 60000) vh_die("too many words");
        }
        json[j++] = ']'; json[j] = 0;
        ev_raw("out", json); ev_status(s); ev_int("null", w == NULL);
        ev_int("inside", inside); ev_close();
        vh_xfree(p);
    }
    else if (!strcmp(op, "sp"))       /* sp string delimiter-byte */
    {
        char* p = S(av[1], &n, 1); const char *l = (char*)1, *r = (char*)1;
        ev_open(op); ev_bytes("in", p, n);
        LIB(s = s_split(&l, &r, p, atoi(av[2])));
        ev_int("d", atoi(av[2])); ev_status(s);
        if (!s) { ev_s("l", l); ev_s("r", r); }
        else ev_int("null", l == NULL && r == NULL);
        ev_close(); vh_xfree(p);
    }
    else if (!strcmp(op, "sw"))       /* sw string prefix (either may be ~) */
    {
        size_t m; char *p = S(av[1], &n, 1), *q = S(av[2], &m, 1); bool b;
        LIB(b = s_starts_with(p, q));
        ev_open(op); ev_bytes("in", p ? p : "", n); ev_bytes("sub", q ? q : "", m);
        ev_int("n1", !p); ev_int("n2", !q); ev_int("b", b); ev_close();
        if (p) vh_xfree(p);
        if (q) vh_xfree(q);
    }
    else if (!strcmp(op, "ew"))       /* ew string byte */
    {
        char* p = S(av[1], &n, 1); bool b;
        LIB(b = s_ends_with(p, atoi(av[2])));
        ev_open(op); ev_bytes("in", p, n); ev_int("c", atoi(av[2]));
        ev_int("b", b); ev_close(); vh_xfree(p);
    }
    else if (!strcmp(op, "sd"))       /* strdup */
    {
        char *p = S(av[1], &n, 1), *q = (char*)1;
        LIB(s = s_strdup(&q, alloc, p));
        ev_open(op); ev_bytes("in", p ? p : "", n); ev_int("n1", !p);
        ev_status(s); ev_oom(); ev_int("null", q == NULL);
        ev_bytes("out", s ? "" : q, s ? 0 : strlen(q));
        ev_int("fresh", q != p);
        ev_close();
        if (!s && allocator_reclaim(alloc, q)) vh_lib("reclaim");
        if (p) vh_xfree(p);
    }
    else if (!strcmp(op, "sc"))       /* strcatv of the arguments */
    {
        char* a[25] = { 0 }; char* q = NULL; int k = ac - 1;
        if (k > 24) vh_die("too many strings");
        ev_open(op);
        static char json[1 << 18]; int j = 0; json[j++] = '[';
        for (int i = 0; i < k; ++i)
        {
            a[i] = S(av[i + 1], &n, 1);
            if (i) json[j++] = ',';
            json[j++] = '[';
            for (char* c = a[i]; *c; ++c)
                j += snprintf(json + j, 8, c == a[i] ? "%d" : ",%d",
                              (unsigned char)*c);
            json[j++] = ']';
        }
        json[j++] = ']'; json[j] = 0;
        /* (what follows the first NULL is not looked at.) */
        LIB(s = s_strcatv(&q, alloc, a[0], a[1], a[2], a[3], a[4], a[5], a[6],
                          a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14],
                          a[15], a[16], a[17], a[18], a[19], a[20], a[21],
                          a[22], a[23], a[24]));
        ev_raw("in", json); ev_status(s); ev_oom();
        ev_bytes("out", s ? "" : q, s ? 0 : strlen(q)); ev_close();
        if (!s && allocator_reclaim(alloc, q)) vh_lib("reclaim");
        for (int i = 0; i < k; ++i) vh_xfree(a[i]);
    }
    else if (!strcmp(op, "us"))       /* us 16-bytes : to string */
    {
        char *p = S(av[1], &n, 0), *q = (char*)1; rcpr_uuid u;
        if (n != 16) vh_die("uuid size");
        memcpy(&u, p, 16);
        LIB(s = rcpr_uuid_to_string(&q, alloc, &u));
        ev_open(op); ev_bytes("in", p, 16); ev_status(s); ev_oom();
        ev_int("null", q == NULL);
        ev_bytes("out", s ? "" : q, s ? 0 : strlen(q));
        ev_int("kept", !memcmp(&u, p, 16)); ev_close();
        if (!s && allocator_reclaim(alloc, q)) vh_lib("reclaim");
        vh_xfree(p);
    }
    else if (!strcmp(op, "up") || !strcmp(op, "ur"))
    {
        /* up string : parse_string; ur string length : parse_raw_string. */
        int raw = op[1] == 'r';
        char* p = S(av[1], &n, !raw); rcpr_uuid u, *v = vh_xmalloc(sizeof u);
        size_t len = raw ? strtoul(av[2], 0, 10) : n;
        for (int i = 0; i < 16; ++i) u.data[i] = 0xC0 + i;
        *v = u;
        if (raw) LIB(s = rcpr_uuid_parse_raw_string(v, p, len));
        else LIB(s = rcpr_uuid_parse_string(v, p));
        ev_open(op); ev_bytes("in", p ? p : "", n); ev_int("n", (long)len);
        ev_int("n1", !p); ev_status(s); ev_bytes("out", v, 16);
        ev_close();
        vh_xfree(v);
        if (p) vh_xfree(p);
    }
    else vh_die("unknown op");
}
void vh_script_end(void)
{
    if (resource_release(allocator_resource_handle(alloc))) vh_lib("release");
    ev_open("end"); ev_int("live", vh_live); ev_close();
}
