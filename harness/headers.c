/* TUS: milter/core/milter-utils.c */
/* CUT: milter/core/milter-headers.c milter_headers_copy 0 */
/* CUT: milter/core/milter-headers.c milter_headers_index_in_same_header_name 0 */
/* CUT: milter/core/milter-headers.c milter_headers_add_header 0 */
/* CUT: milter/core/milter-headers.c milter_headers_lookup_by_name_with_index 0 */
/* Contracts of the header list (milter-headers.c).
 *
 * The functions only compare names and values and copy them, so a name or a
 * value is a string of one arbitrary character here.
 *
 *  A    a list of any length: X is an arbitrary node of it, what lies before X
 *       is summarised by the loop invariant
 *  B/N  concrete lists, checked against a list of (name, value) pairs */
#include "vp.h"
#include "milter/core/milter-headers.c"

static struct { GObject o[4]; } h_obj, h2_obj;
#define H ((MilterHeaders *)&h_obj)
#define H2 ((MilterHeaders *)&h2_obj)
static MilterHeadersPrivate p1, p2;

static char pool_[8][2]; static int np_;
static char *any_name(void)
{
    char *s = pool_[np_++];
#ifdef VP_A
    s[0] = vp_u8nz("name");
#else
    s[0] = "aAbB"[vp_below("name", 4)];
#endif
    s[1] = 0;
    return s;
}
static char *any_value(void)
{
    char *s = pool_[np_++];
    if (vp_below("novalue", 8) == 0) return NULL;
#ifdef VP_A
    s[0] = vp_u8nz("value");
#else
    s[0] = "12"[vp_below("value", 2)];
#endif
    s[1] = 0;
    return s;
}
#ifndef VP_A
gpointer g_object_new(GType t, const gchar *p, ...)
{
    vp_set_private(H2, MILTER_TYPE_HEADERS, &p2);
    milter_headers_init(H2);
    return H2;
}
#endif
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
/* header names are compared without regard to case (RFC 5322), values exactly */
static int same_name(const char *a, const char *b) { return up(a[0]) == up(b[0]); }
static int same(const char *a, const char *b) { return (!a && !b) || (a && b && a[0] == b[0] && (!a[0] || a[1] == b[1])); }

#ifdef VP_A
static GList L0, X, Y;              /* the first node, the arbitrary node, the one after it */
static MilterHeader hx;
static int at_end; static guint before;
static const char *t_name, *t_value; static guint t_index;   /* what is looked for */
static int is_match(void) { return same_name(hx.name, t_name); }

static void list(void)
{
    vp_set_private(H, MILTER_TYPE_HEADERS, &p1);
    vp_set_private(H2, MILTER_TYPE_HEADERS, &p2);
    hx.name = any_name(); hx.value = any_value();
    X.data = &hx; X.next = vp_bool("next") ? &Y : NULL; X.prev = vp_bool("prev") ? &L0 : NULL;
    p1.header_list = vp_bool("empty") ? NULL : vp_bool("first") ? &X : &L0;
}
/* at the head of the loop: at node X or at the end, nothing wanted before */
static int arrive(int *phase, GList **node)
{
    if (*phase == 0) {
        VP_ASSERT(*node == p1.header_list, "the search starts at the first header");
        at_end = vp_bool("end");
        vp_assume(p1.header_list || at_end);
        *phase = 1;
        *node = at_end ? NULL : &X;
        return 1;
    }
    VP_ASSERT(*node == X.next, "the header after it is next");
    return 0;
}
void vp_cut_nth(int *phase, GList **node, guint *count)
{
    if (*phase == 0) VP_ASSERT(*count == 0, "counting starts at none");
    if (arrive(phase, node)) {
        before = vp_u32("before");
        vp_assume(before < 0xffffffffu && (t_index == 0 || before < t_index));
        *count = before;
        return;
    }
    VP_ASSERT(*count == before + is_match() && (t_index == 0 || *count < t_index), "headers of this name are counted");
    VP_REACH("next header");
    vp_assume(0);
}
void vp_cut_index(int *phase, GList **node, guint *count)
{
    if (*phase == 0) VP_ASSERT(*count == 0, "counting starts at none");
    if (arrive(phase, node)) { before = vp_below("before", 0x7fffffff); *count = before; return; }
    VP_ASSERT(*count == before + is_match() && !(is_match() && same(hx.value, t_value)), "headers of this name are counted");
    VP_REACH("next header");
    vp_assume(0);
}
void vp_cut_add(int *phase, GList **node, GList **found)
{
    VP_ASSERT(*found == NULL, "none of this name so far");
    if (arrive(phase, node)) return;
    VP_ASSERT(!is_match(), "none of this name so far");
    VP_REACH("next header");
    vp_assume(0);
}
static int n_copied;
void vp_cut_copy(int *phase, GList **node)
{
    if (arrive(phase, node)) return;
    VP_ASSERT(n_copied == 1, "each header is copied once, in order");
    VP_REACH("next header");
    vp_assume(0);
}

/* ---- contracts of the list functions of GLib ---- */
static int n_changed; static GList R;       /* R: the changed list */
static int is_new(gpointer d)
{
    MilterHeader *h = d;
    return h != &hx && same(h->name, t_name) && same(h->value, t_value) && h->name != t_name && (!t_value || h->value != t_value);
}
GList *gh_insert_before(GList *l, GList *s, gpointer d)
{
    VP_ASSERT(l == p1.header_list && s == &X && !at_end && is_match(), "a header is added before the first of its name");
    VP_ASSERT(is_new(d), "with its name and value");
    n_changed++;
    return &R;
}
GList *gh_append(GList *l, gpointer d)
{
    VP_ASSERT(l == p1.header_list, "it is added to this list");
#ifdef CASE_add
    VP_ASSERT(at_end, "a header of a new name is added at the end");
#endif
    VP_ASSERT(is_new(d), "with its name and value");
    n_changed++;
    return &R;
}
GList *gh_insert(GList *l, gpointer d, gint at)
{
    VP_ASSERT(l == p1.header_list && at == (gint)t_index, "it is inserted at the position given");
    VP_ASSERT(is_new(d), "with its name and value");
    n_changed++;
    return &R;
}
GList *gh_remove(GList *l, gconstpointer d)
{
    VP_ASSERT(l == p1.header_list && d == &hx, "the header found is removed");
    n_changed++;
    return &R;
}
static int n_freed;
void gh_free(MilterHeader *h) { VP_ASSERT(h == &hx && n_changed == 1, "the removed header is freed"); n_freed++; }
GList *gh_find_custom(GList *l, gconstpointer d, GCompareFunc f)
{
    VP_ASSERT(l == p1.header_list, "this list is searched");
    at_end = vp_bool("none");
    vp_assume(l || at_end);
    vp_assume((f(&hx, d) == 0) == !at_end);  /* X is the first match, or any header of a list without one */
    return at_end ? NULL : &X;
}
static int n_added, n_deleted; static gboolean deleted;
gboolean gh_add(MilterHeaders *h, const gchar *n, const gchar *v)
{
    VP_ASSERT(h == H && n == t_name && v == t_value, "a header that is not there is added");
    n_added++;
    return TRUE;
}
gboolean gh_delete(MilterHeaders *h, const gchar *n, guint i)
{
    VP_ASSERT(h == H && n == t_name && i == t_index && !t_value, "a change to nothing is a deletion");
    n_deleted++;
    return deleted = vp_bool("deleted");
}
gboolean gh_append_header(MilterHeaders *h, const gchar *n, const gchar *v)
{
    VP_ASSERT(h == H2 && n == hx.name && v == hx.value, "the header itself is copied");
    n_copied++;
    return TRUE;
}
MilterHeaders *gh_new(void) { return H2; }
MilterHeader *gh_find(MilterHeaders *h, MilterHeader *t)
{
    VP_ASSERT(h == H && same(t->name, t_name) && same(t->value, t_value), "the header given is looked for");
    at_end = vp_bool("none");
    vp_assume(p1.header_list || at_end);
    return at_end ? NULL : &hx;
}
#endif

#ifdef CASE_add
int vp_main(void)
{
    list();
    t_name = any_name(); t_value = any_value();
    VP_ASSERT(milter_headers_add_header(H, t_name, t_value) && n_changed == 1 && p1.header_list == &R, "a header is added once");
    VP_REACH("added");
    return 0;
}
#endif
#ifdef CASE_append
int vp_main(void)
{
    list();
    t_name = any_name(); t_value = any_value();
    VP_ASSERT(milter_headers_append_header(H, t_name, t_value) && n_changed == 1 && p1.header_list == &R, "a header is added once");
    VP_REACH("added");
    return 0;
}
#endif
#ifdef CASE_insert
int vp_main(void)
{
    list();
    t_name = any_name(); t_value = any_value(); t_index = vp_u32("at");
    VP_ASSERT(milter_headers_insert_header(H, t_index, t_name, t_value) && n_changed == 1 && p1.header_list == &R, "a header is added once");
    VP_REACH("inserted");
    return 0;
}
#endif
#ifdef CASE_change
int vp_main(void)
{
    const char *n0, *v0; gboolean r;
    list();
    t_name = any_name(); t_value = any_value(); t_index = vp_u32("index");
    n0 = hx.name; v0 = hx.value;
    hx.value = g_strdup(v0);
    r = milter_headers_change_header(H, t_name, t_index, t_value);
    VP_ASSERT(n_changed == 0 && hx.name == n0, "headers and their names stay");
    if (!t_value) {
        VP_ASSERT(n_deleted == 1 && r == deleted && n_added == 0 && same(hx.value, v0), "a change to nothing is a deletion");
        VP_REACH("deleted");
    } else if (at_end) {
        VP_ASSERT(r && n_added == 1 && n_deleted == 0 && same(hx.value, v0), "a header that is not there is added");
        VP_REACH("added");
    } else {
        VP_ASSERT(r && is_match() && before + 1 == t_index, "the header of this name and index is changed");
        VP_ASSERT(same(hx.value, t_value) && hx.value != t_value && n_added == 0 && n_deleted == 0, "it gets the value given");
        VP_REACH("changed");
    }
    return 0;
}
#endif
#ifdef CASE_delete
int vp_main(void)
{
    gboolean r;
    list();
    t_name = any_name(); t_index = vp_u32("index");
    r = milter_headers_delete_header(H, t_name, t_index);
    VP_ASSERT(r == !at_end && n_changed == r && n_freed == r, "a header is deleted if there is one of this name and index");
    if (r) {
        VP_ASSERT(is_match() && before + 1 == t_index && p1.header_list == &R, "the header of this name and index is deleted");
        VP_REACH("deleted");
    } else VP_REACH("not there");
    return 0;
}
#endif
#ifdef CASE_remove
int vp_main(void)
{
    MilterHeader t; gboolean r;
    list();
    t_name = t.name = any_name(); t_value = t.value = any_value();
    r = milter_headers_remove(H, &t);
    VP_ASSERT(r == !at_end && n_changed == r && n_freed == r && VP_IMPLIES(r, p1.header_list == &R), "the header found is removed");
    VP_REACH("asked");
    return 0;
}
#endif
#ifdef CASE_find
int vp_main(void)
{
    MilterHeader t, *r;
    list();
    t.name = any_name(); t.value = any_value();
    r = milter_headers_find(H, &t);
    VP_ASSERT(r == (at_end ? NULL : &hx), "the header found is given");
    if (p1.header_list) VP_ASSERT(at_end == !(same(hx.name, t.name) && same(hx.value, t.value)), "a header is found by its name and value");
    VP_REACH("asked");
    return 0;
}
#endif
#ifdef CASE_lookup_by_name
int vp_main(void)
{
    MilterHeader *r;
    list();
    t_name = any_name();
    r = milter_headers_lookup_by_name(H, t_name);
    VP_ASSERT(r == (at_end ? NULL : &hx), "the header found is given");
    if (p1.header_list) VP_ASSERT(at_end == !is_match(), "a header is found by its name");
    VP_REACH("asked");
    return 0;
}
#endif
#ifdef CASE_index
int vp_main(void)
{
    MilterHeader t; gint r;
    list();
    t_name = t.name = any_name(); t_value = t.value = any_value();
    r = milter_headers_index_in_same_header_name(H, &t);
    if (at_end) VP_ASSERT(r == -1, "a header that is not there has no index");
    else VP_ASSERT(is_match() && same(hx.value, t_value) && (guint)r == before + 1, "the index of a header is its place among those of its name");
    VP_REACH("asked");
    return 0;
}
#endif
#ifdef CASE_copy
int vp_main(void)
{
    list();
    VP_ASSERT(milter_headers_copy(H) == H2, "a new list");
    VP_ASSERT(p1.header_list != &R && n_changed == 0, "the list copied stays");
    VP_ASSERT(at_end || !X.next, "none is left out");   /* with another one, the way ends at the head of the loop */
    VP_REACH("copied");
    return 0;
}
#endif

#ifdef CASE_edits
/* -------- concrete lists against pairs -------- */
#define CAP 12
static struct { char n, v; } m[CAP]; static int mn;
static void m_put(int at, char *n, char *v)
{
    int i;
    if (at > mn) at = mn;
    for (i = mn; i > at; i--) m[i] = m[i - 1];
    m[at].n = n[0]; m[at].v = v ? v[0] : 0; mn++;
}
static void m_cut(int at) { int i; for (i = at; i < mn - 1; i++) m[i] = m[i + 1]; mn--; }
static int m_nth(char *n, guint idx)
{ int i; guint k = 0; for (i = 0; i < mn; i++) if (up(m[i].n) == up(n[0]) && ++k == idx) return i; return -1; }
static int m_eq(char *n, char *v)
{ int i; for (i = 0; i < mn; i++) if (m[i].n == n[0] && m[i].v == (v ? v[0] : 0)) return i; return -1; }
static void m_add(char *n, char *v) { int i = m_nth(n, 1); m_put(i < 0 ? mn : i, n, v); }
static int is(const MilterHeader *h, int i)
{ return h->name[0] == m[i].n && (m[i].v ? h->value && h->value[0] == m[i].v : !h->value); }
static void matches(MilterHeaders *h)
{
    const GList *l = milter_headers_get_list(h); int i;
    VP_ASSERT(milter_headers_length(h) == (guint)mn, "as many headers as there are");
    for (i = 0; i < mn; i++, l = l->next) {
        vp_assume(l != NULL);
        VP_ASSERT(is(l->data, i), "the headers are the ones put there, in order");
        VP_ASSERT(milter_headers_get_nth_header(h, i + 1) == l->data, "each at its place");
    }
    VP_ASSERT(l == NULL && !milter_headers_get_nth_header(h, 0) && !milter_headers_get_nth_header(h, mn + 1), "and no others");
}
static void step(void)
{
    char *n, *v; guint idx; int i; MilterHeader t, *r;
    np_ = 0;
    n = any_name(); v = any_value(); t.name = n; t.value = v;
#if defined(OP) && !defined(VP_N)
    switch (OP) {
#else
    switch (vp_below("op", 9)) {
#endif
    case 0: milter_headers_add_header(H, n, v); m_add(n, v); break;
    case 1: milter_headers_append_header(H, n, v); m_put(mn, n, v); break;
    case 2: idx = vp_below("at", 6); milter_headers_insert_header(H, idx, n, v); m_put(idx, n, v); break;
    case 3: idx = vp_below("index", 4); i = m_nth(n, idx);
        milter_headers_change_header(H, n, idx, v);
        if (v && i >= 0) m[i].v = v[0]; else if (v) m_add(n, v); else if (i >= 0) m_cut(i);
        break;
    case 4: idx = vp_below("index", 4); i = m_nth(n, idx);
        VP_ASSERT(milter_headers_delete_header(H, n, idx) == (i >= 0), "a header is deleted if it is there");
        if (i >= 0) m_cut(i);
        break;
    case 5: i = m_eq(n, v);
        VP_ASSERT(milter_headers_remove(H, &t) == (i >= 0), "a header is removed if it is there");
        if (i >= 0) m_cut(i);
        break;
    case 6: i = m_eq(n, v); r = milter_headers_find(H, &t);
        VP_ASSERT(!r == (i < 0) && VP_IMPLIES(r, is(r, i)), "a header is found by its name and value"); break;
    case 7: i = m_nth(n, 1); r = milter_headers_lookup_by_name(H, n);
        VP_ASSERT(!r == (i < 0) && VP_IMPLIES(r, is(r, i)), "a header is found by its name"); break;
    default: { guint k = 0, e = 0;
        for (i = 0; i < mn && !e; i++) if (up(m[i].n) == up(n[0])) { k++; if (m[i].v == (v ? v[0] : 0)) e = k; }
        VP_ASSERT(milter_headers_index_in_same_header_name(H, &t) == (e ? (gint)e : -1), "the index of a header is its place among those of its name"); }
        break;
    }
    VP_ASSERT(same(n, t.name), "what was given stays");
}
int vp_main(void)
{
    int i, k;
    vp_set_private(H, MILTER_TYPE_HEADERS, &p1);
    milter_headers_init(H);
#ifdef VP_N
    k = vp_below("steps", 8);
    for (i = 0; i < k; i++) { step(); matches(H); }
    { MilterHeaders *c = milter_headers_copy(H); matches(c); }
#else
    k = vp_below("n", 3);
    for (i = 0; i < k; i++) { char *n, *v; np_ = 0; n = any_name(); v = any_value(); milter_headers_append_header(H, n, v); m_put(mn, n, v); }
    step();
    matches(H);
#endif
    VP_REACH("edited");
    return 0;
}
#endif
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
