/* Assumed contracts of GLib/GObject/libc, executable.  Every function here is
 * part of the trusted base reported in the evidence ("environment model"). */
#include "vp.h"
#include <milter/core/milter-logger.h>
/* logging is off: no log call evaluates or formats anything */
MilterLogger *milter_logger(void) { return NULL; }
#ifndef VP_LOG_LEVEL
#define VP_LOG_LEVEL 0          /* a harness may turn the debug log on */
#endif
MilterLogLevelFlags milter_logger_get_interesting_level(MilterLogger *l) { return VP_LOG_LEVEL; }
void milter_logger_log(MilterLogger *logger, const gchar *domain, MilterLogLevelFlags level,
                       const gchar *file, guint line, const gchar *function, const gchar *format, ...) { }
#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "pointer-overflow"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "conversion"
#pragma CPROVER check disable "undefined-shift"
#pragma CPROVER check disable "div-by-zero"
#endif

#ifdef VP_CBMC
/* ------------------------------------------------------------------ */
/* memory */
gpointer g_malloc(gsize n) { return n ? malloc(n) : NULL; }
/* the copy is as long as asked for; its bytes are read in the native runs */
#ifndef VP_OWN_MEMDUP
gpointer (g_memdup)(gconstpointer p, guint n)
{
    char *r;
    if (!p || !n) return NULL;
    VP_ASSERT(__CPROVER_r_ok(p, n), "bytes copied are there");
    r = malloc(n);
    vp_assume(r != NULL);
    return r;
}
#endif
gpointer g_malloc0(gsize n) { return n ? calloc(1, n) : NULL; }
gpointer g_malloc_n(gsize n, gsize m) { return malloc(n * m); }
gpointer g_malloc0_n(gsize n, gsize m) { return calloc(n, m); }
gpointer g_try_malloc(gsize n) { return malloc(n); }
#ifdef VP_B
void g_free(gpointer p) { free(p); }
#else
void g_free(gpointer p) { }     /* A: lifetimes are checked in B and N */
#endif
void g_free_sized(gpointer p, gsize n) { g_free(p); }
gpointer g_slice_alloc(gsize n) { return malloc(n); }
gpointer g_slice_alloc0(gsize n) { return calloc(1, n); }
void g_slice_free1(gsize n, gpointer p) { g_free(p); }

gsize vp_W;

/* ------------------------------------------------------------------ */
/* strings */
#ifdef VP_A
/* ghost state per memory object: what kind of string it holds, its length,
 * and the string it is a copy of */
enum { VP_K_NONE, VP_K_STR, VP_K_BLOCK };
static unsigned char vp_kind[__CPROVER_constant_infinity_uint];
static gsize vp_slen[__CPROVER_constant_infinity_uint];
static const char *vp_ssrc[__CPROVER_constant_infinity_uint];
#define VP_OBJ(p) __CPROVER_POINTER_OBJECT(p)
#define VP_OFF(p) ((gsize)__CPROVER_POINTER_OFFSET(p))

static void vp_tab_add(const char *p, gsize n, const char *src, int kind)
{
    vp_kind[VP_OBJ(p)] = kind;
    vp_slen[VP_OBJ(p)] = n;
    vp_ssrc[VP_OBJ(p)] = src;
}
static gsize vp_anylen(void)
{ gsize n = nondet_vp_u64(); __CPROVER_assume(n <= VP_AMAX); return n; }

char *vp_cstr_n(const char *tag, gsize n)
{
    char *p = malloc(n + 1);
    __CPROVER_assume(p != NULL);
    p[n] = '\0';
    __CPROVER_assume(n == 0 || p[0] != 0);
    __CPROVER_assume(n <= 1 || p[1] != 0);
    __CPROVER_assume(vp_W >= n || p[vp_W] != 0);
    vp_tab_add(p, n, p, VP_K_STR);
    return p;
}
char *vp_cstr(const char *tag) { return vp_cstr_n(tag, vp_anylen()); }

/* a block knows its first VP_NZ NUL bytes (ghost; n when there are fewer) */
#ifndef VP_NZ
#define VP_NZ 4
#endif
static const char *vp_blk; static gsize vp_blkn; static gsize vp_z[VP_NZ];
static int vp_nblk; static gsize vp_zbase;
char *vp_block(const char *tag, gsize n)
{
    char *p = malloc(n);
    int i;
    __CPROVER_assume(p != NULL);
    vp_tab_add(p, n, p, VP_K_BLOCK);
    if (vp_nblk++ == 0) {
        vp_blk = p; vp_blkn = n;
        for (i = 0; i < VP_NZ; i++) {
            vp_z[i] = nondet_vp_u64();
            __CPROVER_assume(vp_z[i] <= n);
            if (i > 0) __CPROVER_assume(vp_z[i] > vp_z[i - 1] || (vp_z[i - 1] == n && vp_z[i] == n));
            if (vp_z[i] < n) __CPROVER_assume(p[vp_z[i]] == '\0');
        }
    }
    return p;
}
/* diagnostic text: its content matters to nothing */
static char vp_msg[2] = "m";
char *vp_opaque(void) { return vp_msg; }
/* first NUL of p[0..n): exact for strings; for the block, from its ghost NUL
 * positions */
gssize vp_first_nul(const char *p, gssize n)
{
    gsize off = VP_OFF(p), z;
    int i;
    if (n <= 0) return -1;
    if (__CPROVER_same_object(p, vp_blk)) {
        int isz = 0;
        __CPROVER_assert(off >= vp_zbase, "INAPPLICABLE scan before the tracked range");
        __CPROVER_assume(off >= vp_zbase);
        __CPROVER_assert(off <= vp_z[VP_NZ - 1], "INAPPLICABLE more NULs than the block model tracks");
        __CPROVER_assume(off <= vp_z[VP_NZ - 1]);
        z = vp_blkn;
        for (i = VP_NZ - 1; i >= 0; i--) {
            if (vp_z[i] >= off) z = vp_z[i];
            if (vp_z[i] == off) isz = 1;
        }
        if (off < vp_blkn) __CPROVER_assume((p[0] == '\0') == isz);
        if (off + 1 < vp_blkn && z > off + 1) __CPROVER_assume(p[1] != '\0');
        if (vp_W < vp_blkn && vp_W >= off && vp_W < z) __CPROVER_assume(vp_blk[vp_W] != '\0');
        return z < off + (gsize)n ? (gssize)(z - off) : -1;
    }
    __CPROVER_assert(vp_kind[VP_OBJ(p)] == VP_K_STR, "INAPPLICABLE NUL scan of an unknown block");
    __CPROVER_assume(vp_kind[VP_OBJ(p)] == VP_K_STR);
    z = vp_slen[VP_OBJ(p)];
    return z < off + (gsize)n ? (gssize)(z - off) : -1;
}
/* contract of strlen */
gsize vp_len(const char *s)
{
    if (__CPROVER_same_object(s, vp_blk)) {
        gssize r;
        __CPROVER_assert(VP_OFF(s) < vp_blkn, "VP strlen argument within the block");
        r = vp_first_nul(s, vp_blkn - VP_OFF(s));
        __CPROVER_assert(r >= 0, "VP strlen of NUL-terminated data");
        __CPROVER_assume(r >= 0);
        return r;
    }
    if (vp_kind[VP_OBJ(s)] == VP_K_STR) {
        __CPROVER_assert(VP_OFF(s) <= vp_slen[VP_OBJ(s)], "VP strlen argument within the string");
        return vp_slen[VP_OBJ(s)] - VP_OFF(s);
    }
    __CPROVER_assert(vp_kind[VP_OBJ(s)] == VP_K_NONE, "INAPPLICABLE strlen of an untracked block");
    __CPROVER_assume(vp_kind[VP_OBJ(s)] == VP_K_NONE);
    { gsize n = 0; while (s[n] != '\0') n++; return n; }
}
/* same C string: same start, or a copy of the same source */
static const char *vp_origin(const char *s)
{
    if (vp_kind[VP_OBJ(s)] == VP_K_STR) return vp_ssrc[VP_OBJ(s)] + VP_OFF(s);
    return s;
}
int vp_streq(const char *a, const char *b)
{
    if (a == b) return 1;
    if (a == NULL || b == NULL) return 0;
    return vp_origin(a) == vp_origin(b);
}
int vp_is_copy(const char *s, const char *p, gsize n)
{ return vp_kind[VP_OBJ(s)] == VP_K_STR && VP_OFF(s) == 0 && vp_slen[VP_OBJ(s)] == n && (n == 0 || vp_ssrc[VP_OBJ(s)] == p); }
/* forget the NULs before off, track the ones from there (nothing before off is
 * scanned any more: checked) */
void vp_retrack(gsize off)
{
    int i;
    vp_zbase = off;
    for (i = 0; i < VP_NZ; i++) {
        vp_z[i] = nondet_vp_u64();
        __CPROVER_assume(vp_z[i] <= vp_blkn && vp_z[i] >= off);
        if (i > 0) __CPROVER_assume(vp_z[i] > vp_z[i - 1] || (vp_z[i - 1] == vp_blkn && vp_z[i] == vp_blkn));
        if (vp_z[i] < vp_blkn) __CPROVER_assume(vp_blk[vp_z[i]] == '\0');
    }
}
/* the bytes from here up to the tracked range are known not to be NUL */
void vp_scan_from(gsize off) { vp_zbase = off; }

gchar *g_strdup(const gchar *s)
{
    gsize n; char *p;
    if (!s) return NULL;
    n = vp_len(s);
    p = malloc(n + 1);
    p[n] = '\0';
    __CPROVER_assume(n == 0 || p[0] == s[0]);
    __CPROVER_assume(vp_W >= n || p[vp_W] == s[vp_W]);
    vp_tab_add(p, n, vp_origin(s), VP_K_STR);
    return p;
}
gchar *g_strndup(const gchar *s, gsize m)
{
    gsize n; char *p;
    gssize r;
    if (!s) return NULL;
    r = vp_first_nul(s, m);
    n = r >= 0 ? (gsize)r : m;
    p = malloc(m + 1);
    p[n] = '\0'; p[m] = '\0';
    __CPROVER_assume(n < 1 || p[0] == s[0]);
    __CPROVER_assume(n < 2 || p[1] == s[1]);
    __CPROVER_assume(n < 3 || p[2] == s[2]);
    __CPROVER_assume(vp_W >= n || p[vp_W] == s[vp_W]);
    vp_tab_add(p, n, vp_origin(s), VP_K_STR);
    return p;
}
#else /* VP_B */
gsize vp_len(const char *s)
{ gsize n = 0; while (s[n] != '\0') n++; return n; }
char *vp_block(const char *tag, gsize n)
{
    char *p = malloc(n);
    gsize i;
    for (i = 0; i < n; i++) p[i] = (char)vp_u8(tag);
    return p;
}
char *vp_cstr_n(const char *tag, gsize n)
{
    char *p = malloc(n + 1);
    gsize i;
    for (i = 0; i < n; i++) { p[i] = (char)vp_u8(tag); vp_assume(p[i] != '\0'); }
    p[n] = '\0';
    return p;
}
char *vp_cstr(const char *tag)
{
    gsize n = vp_below(tag, VP_STRMAX + 1), i;
    char *p = malloc(VP_STRMAX + 1);
    for (i = 0; i < VP_STRMAX; i++) {
        p[i] = (char)vp_u8(tag);
        if (i < n) vp_assume(p[i] != '\0'); else p[i] = '\0';
    }
    p[VP_STRMAX] = '\0';
    return p;
}
char *vp_opaque(void)
{
    char *p = malloc(4);
    p[0] = 'm'; p[1] = 's'; p[2] = 'g'; p[3] = '\0';
    return p;
}
gssize vp_first_nul(const char *p, gssize n)
{
    gssize i;
    for (i = 0; i < n; i++) if (p[i] == '\0') return i;
    return -1;
}
int vp_streq(const char *a, const char *b)
{
    gsize i = 0;
    if (a == b) return 1;
    if (a == NULL || b == NULL) return 0;
    while (a[i] == b[i]) { if (a[i] == '\0') return 1; i++; }
    return 0;
}
#ifndef VP_DUPCAP
#define VP_DUPCAP 24
#endif
gchar *g_strdup(const gchar *s)
{
    gsize i = 0; char *p;
    if (!s) return NULL;
    p = malloc(VP_DUPCAP);
    for (i = 0; s[i] != '\0'; i++) p[i] = s[i];
    p[i] = '\0';
    return p;
}
gchar *g_strndup(const gchar *s, gsize m)
{
    gsize i = 0; char *p;
    if (!s) return NULL;
    p = malloc(VP_DUPCAP);
    for (i = 0; i < m && s[i] != '\0'; i++) p[i] = s[i];
    p[i] = '\0';
    p[m] = '\0';                /* g_strndup allocates m + 1 bytes */
    return p;
}
#endif

#ifdef VP_A
size_t strlen(const char *s) { return vp_len(s); }
/* copies: the terminator, and the witnessed byte */
char *strcpy(char *d, const char *s)
{
    gsize n = vp_len(s);
    __CPROVER_assert(__CPROVER_w_ok(d, n + 1), "VP strcpy destination is large enough");
    __CPROVER_assume(__CPROVER_w_ok(d, n + 1));
    d[n] = '\0';
    if (n > 0) d[0] = s[0];
    if (vp_W < n) d[vp_W] = s[vp_W];
    return d;
}
void *memchr(const void *s, int c, size_t n)
{
    gssize r;
    __CPROVER_assert(c == 0, "INAPPLICABLE memchr of another byte");
    __CPROVER_assume(c == 0);
    r = vp_first_nul(s, n);
    return r < 0 ? NULL : (void *)((char *)s + r);
}
#endif

static int vp_lower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
static int vp_upper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
#ifndef VP_OWN_STRCMP
int strcmp(const char *a, const char *b)
{
    gsize i = 0;
#ifdef VP_A
    if (vp_streq(a, b)) return 0;
#ifdef VP_RANK_ORDER
    return (gint)VP_RANK_ORDER(a) - (gint)VP_RANK_ORDER(b);
#endif
#endif
    while (a[i] == b[i]) { if (a[i] == '\0') return 0; i++; }
    return (int)(guchar)a[i] - (int)(guchar)b[i];
}
gint g_ascii_strcasecmp(const gchar *a, const gchar *b)
{
    gsize i = 0;
    while (vp_lower((guchar)a[i]) == vp_lower((guchar)b[i])) {
        if (a[i] == '\0') return 0;
        i++;
    }
    return vp_lower((guchar)a[i]) - vp_lower((guchar)b[i]);
}
int strcasecmp(const char *a, const char *b) { return g_ascii_strcasecmp(a, b); }
#endif
#ifndef VP_OWN_STRNCMP
int strncmp(const char *a, const char *b, size_t n)
{
    gsize i;
    for (i = 0; i < n; i++) {
        if (a[i] != b[i]) return (int)(guchar)a[i] - (int)(guchar)b[i];
        if (a[i] == '\0') return 0;
    }
    return 0;
}
#endif
int strncasecmp(const char *a, const char *b, size_t n)
{
    gsize i;
    for (i = 0; i < n; i++) {
        if (vp_lower((guchar)a[i]) != vp_lower((guchar)b[i]))
            return vp_lower((guchar)a[i]) - vp_lower((guchar)b[i]);
        if (a[i] == '\0') return 0;
    }
    return 0;
}
gint g_ascii_strncasecmp(const gchar *a, const gchar *b, gsize n)
{ return strncasecmp(a, b, n); }
int g_strcmp0(const char *a, const char *b)
{
    if (!a) return -(a != b);
    if (!b) return a != b;
    return strcmp(a, b);
}
gboolean g_str_equal(gconstpointer a, gconstpointer b) { return strcmp(a, b) == 0; }
guint g_str_hash(gconstpointer a) { return 0; }
guint g_direct_hash(gconstpointer a) { return 0; }
gboolean g_direct_equal(gconstpointer a, gconstpointer b) { return a == b; }
guint g_int_hash(gconstpointer a) { return 0; }
gboolean g_int_equal(gconstpointer a, gconstpointer b) { return *(const gint *)a == *(const gint *)b; }
#ifdef VP_A
/* some fixed total preorder on strings: a rank per string */
#ifdef VP_RANK_ORDER            /* the harness names the strings in rank order */
guint vp_rank(const char *s) { return VP_RANK_ORDER(s); }
#else
static struct { const char *p; guint r; } vp_rk[8];
static int vp_nrk;
guint vp_rank(const char *s)
{
    int i; guint r = nondet_vp_u32();
    for (i = 0; i < vp_nrk; i++) if (vp_rk[i].p == s) return vp_rk[i].r;
    __CPROVER_assert(vp_nrk < 8, "INAPPLICABLE rank table");
    __CPROVER_assume(r < 1000);
    vp_rk[vp_nrk].p = s; vp_rk[vp_nrk].r = r; vp_nrk++;
    return r;
}
#endif
gint g_utf8_collate(const gchar *a, const gchar *b) { return (gint)vp_rank(a) - (gint)vp_rank(b); }
#else
gint g_utf8_collate(const gchar *a, const gchar *b) { return strcmp(a, b); }
#endif
gboolean (g_str_has_prefix)(const gchar *s, const gchar *p)
{ gsize i; for (i = 0; p[i]; i++) if (s[i] != p[i]) return FALSE; return TRUE; }
gboolean (g_str_has_suffix)(const gchar *s, const gchar *p)
{
    gsize n = vp_len(s), m = vp_len(p);
    return n >= m && strcmp(s + n - m, p) == 0;
}
gchar g_ascii_tolower(gchar c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
gchar g_ascii_toupper(gchar c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
gint g_ascii_digit_value(gchar c) { return (c >= '0' && c <= '9') ? c - '0' : -1; }
#ifdef VP_B
char *strchr(const char *s, int c)
{
    for (;; s++) {
        if (*s == (char)c) return (char *)s;
        if (*s == '\0') return NULL;
    }
}
char *strrchr(const char *s, int c)
{
    const char *r = NULL;
    for (;; s++) {
        if (*s == (char)c) r = s;
        if (*s == '\0') return (char *)r;
    }
}
char *strstr(const char *s, const char *t)
{
    for (;; s++) {
        gsize i = 0;
        while (t[i] != '\0' && s[i] == t[i]) i++;
        if (t[i] == '\0') return (char *)s;
        if (*s == '\0') return NULL;
    }
}
void *memchr(const void *s, int c, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) if (((const guchar *)s)[i] == (guchar)c) return (char *)s + i;
    return NULL;
}
char *stpcpy(char *d, const char *s)
{ while ((*d = *s) != '\0') { d++; s++; } return d; }
#endif
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }

/* the ctype table GLib macros consult (GLib's own values) */
static const guint16 vp_ascii[256] = {
    4, 4, 4, 4, 4, 4, 4, 4, 4, 260, 260, 4, 260, 260, 4, 4,
    4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4,
    320, 208, 208, 208, 208, 208, 208, 208, 208, 208, 208, 208, 208, 208, 208, 208,
    1113, 1113, 1113, 1113, 1113, 1113, 1113, 1113, 1113, 1113, 208, 208, 208, 208, 208, 208,
    208, 1619, 1619, 1619, 1619, 1619, 1619, 595, 595, 595, 595, 595, 595, 595, 595, 595,
    595, 595, 595, 595, 595, 595, 595, 595, 595, 595, 595, 208, 208, 208, 208, 208,
    208, 1139, 1139, 1139, 1139, 1139, 1139, 115, 115, 115, 115, 115, 115, 115, 115, 115,
    115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 208, 208, 208, 208, 4
};
const guint16 * const g_ascii_table = vp_ascii;

/* opaque messages */
#ifndef VP_OWN_STRDUP_PRINTF
gchar *g_strdup_printf(const gchar *fmt, ...)
#ifdef VP_PRINTF
{ va_list ap; gchar *r; va_start(ap, fmt); r = VP_PRINTF(fmt, ap); va_end(ap); return r; }
#else
{ return vp_opaque(); }
#endif
gchar *g_strdup_vprintf(const gchar *fmt, va_list ap) { return vp_opaque(); }

/* ------------------------------------------------------------------ */
/* errors */
GQuark g_quark_from_static_string(const gchar *s)
{
    /* a small injective map would do; error domains are only compared for
     * equality by callers */
    return 1 + (guint)s[0] + 256 * (guint)s[7] + 65536 * (guint)s[14];
}
#endif
static int vp_errors_set;
GError *vp_error(const char *tag)
{
    GError *e = malloc(sizeof(GError));
    e->domain = nondet_vp_u32(); e->code = (gint)nondet_vp_u32();
    e->message = vp_opaque();
    return e;
}
void g_set_error(GError **err, GQuark domain, gint code, const gchar *fmt, ...)
{
    GError *e;
    if (!err) return;
    __CPROVER_assert(*err == NULL, "VP error location not set twice");
    e = malloc(sizeof(GError));
    e->domain = domain; e->code = code; e->message = vp_opaque();
    *err = e;
    vp_errors_set++;
}
void g_set_error_literal(GError **err, GQuark domain, gint code, const gchar *msg)
{
    GError *e;
    if (!err) return;
    __CPROVER_assert(*err == NULL, "VP error location not set twice");
    e = malloc(sizeof(GError));
    e->domain = domain; e->code = code; e->message = g_strdup(msg);
    *err = e;
    vp_errors_set++;
}
GError *g_error_new(GQuark domain, gint code, const gchar *fmt, ...)
{
    GError *e = malloc(sizeof(GError));
    e->domain = domain; e->code = code; e->message = vp_opaque();
    return e;
}
GError *g_error_copy(const GError *x)
{
    GError *e = malloc(sizeof(GError));
    *e = *x;
    return e;
}
void g_error_free(GError *e)
{ __CPROVER_assert(e != NULL, "VP g_error_free of NULL"); }
void g_clear_error(GError **e) { if (e && *e) { *e = NULL; } }
void g_propagate_error(GError **dest, GError *src)
{ if (dest) { __CPROVER_assert(*dest == NULL, "VP error location not set twice"); *dest = src; } }
gboolean g_error_matches(const GError *e, GQuark d, gint c)
{ return e && e->domain == d && e->code == c; }
void g_return_if_fail_warning(const char *d, const char *f, const char *e)

#ifdef VP_ALLOW_CRITICAL
{ }
#else
{ __CPROVER_assert(0, "VP precondition of a called function holds (no critical warning)"); }
#endif
void g_log(const gchar *d, GLogLevelFlags l, const gchar *f, ...) { }
void g_warn_message(const char *d, const char *f, int l, const char *fn, const char *e) { }

/* ------------------------------------------------------------------ */
/* GString */
#ifdef VP_OWN_GSTRING
int vp_gs_byte(const char *data, gsize i) { return (guint8)data[i]; }
#elif defined(VP_A)
/* witness model: the length, and the byte at content index vp_W; bytes
 * prepended later are recorded separately and move the content. */
#define VP_PRE 8
typedef struct { GString g; int wb; guint8 pre[VP_PRE]; guint prelen; } VpGS;
#define VP_NGS 6
static VpGS *vp_gs[VP_NGS];
static int vp_ngs;
static VpGS *vp_gs_of(const char *str)
{
    int i;
    for (i = 0; i < vp_ngs; i++)
        if (__CPROVER_same_object(str, vp_gs[i]->g.str)) return vp_gs[i];
    return NULL;
}
static GString *vp_gs_new(void)
{
    VpGS *s = malloc(sizeof(VpGS));
    __CPROVER_assert(vp_ngs < VP_NGS, "INAPPLICABLE too many strings");
    __CPROVER_assume(vp_ngs < VP_NGS);
    s->g.str = malloc(1);
    s->g.len = 0; s->g.allocated_len = 0;
    s->wb = -1; s->prelen = 0;
    vp_gs[vp_ngs++] = s;
    return &s->g;
}
static guint8 vp_read(const char *v, gsize i)
{
    VpGS *src = vp_gs_of(v);
    if (src) {
        __CPROVER_assert(src->prelen == 0 && i == vp_W, "INAPPLICABLE untracked byte");
        return (guint8)src->wb;
    }
    return (guint8)v[i];
}
int vp_gs_byte(const char *data, gsize i)
{
    VpGS *s = vp_gs_of(data);
    if (!s) return (guint8)data[i];
    if (i >= s->g.len) return -1;
    if (i < s->prelen) return s->pre[i];
    __CPROVER_assert(i == vp_W + s->prelen, "INAPPLICABLE untracked byte");
    __CPROVER_assume(i == vp_W + s->prelen);
    return s->wb;
}
GString *g_string_insert_len(GString *g, gssize pos, const gchar *v, gssize n)
{
    VpGS *s = (VpGS *)g;
    gsize m = n < 0 ? vp_len(v) : (gsize)n;
    if (n >= 0 && m > 0) {
        /* precondition: v is readable for m bytes */
        VpGS *src = vp_gs_of(v);
        if (src) __CPROVER_assert(m <= src->g.len, "VP g_string_append_len reads inside the source");
        else __CPROVER_assert(__CPROVER_r_ok(v, m), "VP g_string_append_len reads inside the source");
    }
    if (pos == 0 && s->g.len > 0) {
        guint k;
        __CPROVER_assert(m <= 4 && s->prelen + m <= VP_PRE, "INAPPLICABLE prepend of a long string");
        __CPROVER_assume(m <= 4 && s->prelen + m <= VP_PRE);
        __CPROVER_assert(m == 4 && s->prelen == 0, "INAPPLICABLE prepend shape");
        __CPROVER_assume(m == 4 && s->prelen == 0);
        for (k = 0; k < 4; k++) s->pre[k] = (guint8)v[k];
        s->prelen = 4;
        s->g.len += m;
        return g;
    }
    __CPROVER_assert(pos < 0 || (gsize)pos == s->g.len, "INAPPLICABLE insertion in the middle");
    __CPROVER_assume(pos < 0 || (gsize)pos == s->g.len);
    {
        gsize clen = s->g.len - s->prelen;
        if (vp_W >= clen && vp_W - clen < m) {
            VpGS *src = vp_gs_of(v);
            if (src) {
                __CPROVER_assert(clen == 0, "INAPPLICABLE untracked byte");
                s->wb = vp_read(v, vp_W);
            } else {
                s->wb = (guint8)v[vp_W - clen];
            }
        }
    }
    s->g.len += m;
    return g;
}
GString *g_string_insert_c(GString *g, gssize pos, gchar c)
{
    VpGS *s = (VpGS *)g;
    __CPROVER_assert(pos < 0 || (gsize)pos == s->g.len, "INAPPLICABLE insertion in the middle");
    __CPROVER_assume(pos < 0 || (gsize)pos == s->g.len);
    if (s->g.len - s->prelen == vp_W) s->wb = (guint8)c;
    s->g.len++;
    return g;
}
GString *g_string_truncate(GString *g, gsize n)
{
    VpGS *s = (VpGS *)g;
    if (n < s->g.len) {
        __CPROVER_assert(n == 0 || n >= s->prelen, "INAPPLICABLE truncate in prefix");
        __CPROVER_assume(n == 0 || n >= s->prelen);
        if (n == 0) { s->prelen = 0; s->wb = -1; }
        else if (vp_W >= n - s->prelen) s->wb = -1;
        s->g.len = n;
    }
    return g;
}
GString *g_string_set_size(GString *g, gsize n)
{ __CPROVER_assert(n <= g->len, "INAPPLICABLE growing set_size"); __CPROVER_assume(n <= g->len); return g_string_truncate(g, n); }
GString *g_string_erase(GString *g, gssize pos, gssize n)
{
    __CPROVER_assert(pos == 0 && (n < 0 || (gsize)n == g->len), "INAPPLICABLE partial erase");
    __CPROVER_assume(pos == 0 && (n < 0 || (gsize)n == g->len));
    return g_string_truncate(g, 0);
}
#else
/* executable model */
#ifndef VP_GSCAP
#define VP_GSCAP 48
#endif
static GString *vp_gs_new(void)
{
    GString *g = malloc(sizeof(GString));
    g->str = malloc(VP_GSCAP);
    g->len = 0; g->allocated_len = VP_GSCAP;
    g->str[0] = '\0';
    return g;
}
int vp_gs_byte(const char *data, gsize i) { return (guint8)data[i]; }
GString *g_string_insert_len(GString *g, gssize pos, const gchar *v, gssize n)
{
    gsize m = n < 0 ? vp_len(v) : (gsize)n, i;
    gsize at = pos < 0 ? g->len : (gsize)pos;
    __CPROVER_assert(at <= g->len, "VP g_string_insert position");
    __CPROVER_assert(g->len + m < VP_GSCAP, "BOUND g_string capacity");
    __CPROVER_assume(g->len + m < VP_GSCAP);
    if (at < g->len) {
        for (i = g->len; i > at; i--) g->str[i - 1 + m] = g->str[i - 1];
    }
    for (i = 0; i < m; i++) g->str[at + i] = v[i];
    g->len += m;
    g->str[g->len] = '\0';
    return g;
}
GString *g_string_insert_c(GString *g, gssize pos, gchar c)
{
    if (pos < 0 || (gsize)pos == g->len) {
        __CPROVER_assert(g->len + 1 < VP_GSCAP, "BOUND g_string capacity");
        __CPROVER_assume(g->len + 1 < VP_GSCAP);
        g->str[g->len++] = c;
        g->str[g->len] = '\0';
        return g;
    }
    return g_string_insert_len(g, pos, &c, 1);
}
GString *g_string_truncate(GString *g, gsize n)
{ if (n < g->len) { g->len = n; g->str[n] = '\0'; } return g; }
GString *g_string_set_size(GString *g, gsize n)
{
    __CPROVER_assert(n < VP_GSCAP, "BOUND g_string capacity");
    __CPROVER_assume(n < VP_GSCAP);
    g->len = n; g->str[n] = '\0'; return g;
}
GString *g_string_erase(GString *g, gssize pos, gssize n)
{
    gsize i;
    __CPROVER_assert(pos >= 0 && (gsize)pos <= g->len, "VP g_string_erase position");
    if (n < 0) { g->len = pos; }
    else {
        __CPROVER_assert((gsize)pos + n <= g->len, "VP g_string_erase length");
        for (i = (gsize)pos + n; i < g->len; i++) g->str[i - n] = g->str[i];
        g->len -= n;
    }
    g->str[g->len] = '\0';
    return g;
}
#endif
#ifndef VP_OWN_GSTRING
GString *g_string_append(GString *g, const gchar *v) { return g_string_insert_len(g, -1, v, -1); }
GString *g_string_append_len(GString *g, const gchar *v, gssize n) { return g_string_insert_len(g, -1, v, n); }
GString *g_string_append_c(GString *g, gchar c) { return g_string_insert_c(g, -1, c); }
GString *g_string_prepend_len(GString *g, const gchar *v, gssize n) { return g_string_insert_len(g, 0, v, n); }
GString *g_string_prepend(GString *g, const gchar *v) { return g_string_insert_len(g, 0, v, -1); }
GString *g_string_prepend_c(GString *g, gchar c) { return g_string_insert_len(g, 0, &c, 1); }
GString *g_string_insert(GString *g, gssize pos, const gchar *v) { return g_string_insert_len(g, pos, v, -1); }
GString *g_string_assign(GString *g, const gchar *v) { g_string_truncate(g, 0); return g_string_append(g, v); }
GString *g_string_new(const gchar *v) { GString *g = vp_gs_new(); if (v) g_string_append(g, v); return g; }
GString *g_string_new_len(const gchar *v, gssize n) { GString *g = vp_gs_new(); g_string_append_len(g, v, n); return g; }
GString *g_string_sized_new(gsize n) { return vp_gs_new(); }
gchar *g_string_free(GString *g, gboolean all)
{ gchar *s = g->str; if (all) return NULL; return s; }
gchar *g_string_free_and_steal(GString *g) { return g->str; }
#endif
#ifndef VP_OWN_APPEND_PRINTF
/* %s, %c and literal text are modelled; other conversions produce diagnostic
 * text only, so they append nothing and raise vp_opaque_format */
int vp_opaque_format;
void g_string_append_printf(GString *g, const gchar *fmt, ...)
{
    va_list ap; gsize i;
    va_start(ap, fmt);
    for (i = 0; fmt[i] != '\0'; i++) {
        if (fmt[i] != '%') { g_string_insert_c(g, -1, fmt[i]); continue; }
        i++;
        if (fmt[i] == 's') g_string_append(g, va_arg(ap, const gchar *));
        else if (fmt[i] == 'c') g_string_insert_c(g, -1, (gchar)va_arg(ap, int));
        else if (fmt[i] == '%') g_string_insert_c(g, -1, '%');
        else { vp_opaque_format = 1; break; }
    }
    va_end(ap);
}
#endif

void vp_spec_init(VpSpec *s) { s->len = 0; s->wb = -1; s->w = vp_W; }
void vp_spec_byte(VpSpec *s, guint8 c) { if (s->len == s->w) s->wb = c; s->len++; }
void vp_spec_bytes(VpSpec *s, const char *p, gsize n)
{ if (s->w >= s->len && s->w - s->len < n) s->wb = (guint8)p[s->w - s->len]; s->len += n; }
#else /* VP_N */
gsize vp_W;
guint64 vp_native_range(const char *kind, int bits, guint64 n);

void vp_spec_init(VpSpec *s) { s->len = 0; s->wb = -1; s->w = vp_W; }
void vp_spec_byte(VpSpec *s, guint8 c) { if (s->len == s->w) s->wb = c; s->len++; }
void vp_spec_bytes(VpSpec *s, const char *p, gsize n)
{ if (s->w >= s->len && s->w - s->len < n) s->wb = (guint8)p[s->w - s->len]; s->len += n; }
#endif
void vp_witness(void)
{
#ifdef VP_N
    vp_W = vp_native_range("vp_u64", 64, VP_AMAX * (guint64)4);
    if (getenv("VP_RANDOM")) vp_W %= 24;
#else
    vp_W = vp_u64("W");
    vp_assume(vp_W < VP_AMAX * (guint64)4);
#endif
}
void vp_spec_be32(VpSpec *s, guint32 v)
{
    vp_spec_byte(s, v >> 24); vp_spec_byte(s, v >> 16);
    vp_spec_byte(s, v >> 8); vp_spec_byte(s, v);
}
void vp_spec_str(VpSpec *s, const char *p) { vp_spec_bytes(s, p, vp_len(p)); }
void vp_spec_strz(VpSpec *s, const char *p) { vp_spec_str(s, p); vp_spec_byte(s, 0); }

#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
