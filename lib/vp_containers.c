/* GList / GHashTable / GQueue models (CBMC only; natively the real GLib) */
#include "vp.h"
#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "pointer-overflow"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "conversion"
#pragma CPROVER check disable "undefined-shift"
#pragma CPROVER check disable "div-by-zero"
#endif
#ifndef VP_LIST_MORE
#define VP_LIST_MORE(l) (l)        /* where a list ends; a harness may leave its rest open */
#endif
#ifdef VP_CBMC
static GList *vp_node(gpointer d)
{ GList *n = malloc(sizeof(GList)); n->data = d; n->next = NULL; n->prev = NULL; return n; }
GList *g_list_alloc(void) { return vp_node(NULL); }
void g_list_free(GList *l) { }
void g_list_free_1(GList *l) { }
GList *g_list_append(GList *l, gpointer d)
{
    GList *n = vp_node(d), *p = l;
    if (!l) return n;
    while (p->next) p = p->next;
    p->next = n; n->prev = p;
    return l;
}
GList *g_list_prepend(GList *l, gpointer d)
{
    GList *n = vp_node(d);
    n->next = l;
    if (l) { n->prev = l->prev; if (l->prev) l->prev->next = n; l->prev = n; }
    return n;
}
GList *g_list_last(GList *l) { if (l) while (l->next) l = l->next; return l; }
GList *g_list_first(GList *l) { if (l) while (l->prev) l = l->prev; return l; }
guint g_list_length(GList *l) { guint n = 0; while (l) { n++; l = l->next; } return n; }
GList *g_list_nth(GList *l, guint n) { while (n-- > 0 && l) l = l->next; return l; }
gpointer g_list_nth_data(GList *l, guint n) { while (n-- > 0 && l) l = l->next; return l ? l->data : NULL; }
GList *g_list_find(GList *l, gconstpointer d) { while (VP_LIST_MORE(l)) { if (l->data == d) return l; l = l->next; } return NULL; }
GList *g_list_find_custom(GList *l, gconstpointer d, GCompareFunc f)
{ while (l) { if (!f(l->data, d)) return l; l = l->next; } return NULL; }
gint g_list_index(GList *l, gconstpointer d)
{ gint i = 0; while (l) { if (l->data == d) return i; i++; l = l->next; } return -1; }
gint g_list_position(GList *l, GList *k)
{ gint i = 0; while (l) { if (l == k) return i; i++; l = l->next; } return -1; }
GList *g_list_remove_link(GList *l, GList *k)
{
    if (!k) return l;
    if (k->prev) k->prev->next = k->next;
    if (k->next) k->next->prev = k->prev;
    if (k == l) l = l->next;
    k->next = NULL; k->prev = NULL;
    return l;
}
GList *g_list_delete_link(GList *l, GList *k) { return g_list_remove_link(l, k); }
GList *g_list_remove(GList *l, gconstpointer d)
{
    GList *p = l;
    while (VP_LIST_MORE(p)) { if (p->data == d) return g_list_remove_link(l, p); p = p->next; }
    return l;
}
GList *g_list_insert(GList *l, gpointer d, gint pos)
{
    GList *n, *t;
    if (pos < 0) return g_list_append(l, d);
    if (pos == 0) return g_list_prepend(l, d);
    t = g_list_nth(l, pos);
    if (!t) return g_list_append(l, d);
    n = vp_node(d);
    n->prev = t->prev; t->prev->next = n; n->next = t; t->prev = n;
    return l;
}
GList *g_list_insert_before(GList *l, GList *sib, gpointer d)
{
    GList *n;
    if (!l) return vp_node(d);
    if (!sib) return g_list_append(l, d);
    n = vp_node(d);
    n->prev = sib->prev; n->next = sib; sib->prev = n;
    if (n->prev) { n->prev->next = n; return l; }
    return n;
}
#ifndef VP_OWN_GLIST_COPY
GList *g_list_copy(GList *l) { GList *r = NULL; while (l) { r = g_list_append(r, l->data); l = l->next; } return r; }
#endif
GList *g_list_copy_deep(GList *l, GCopyFunc f, gpointer u) { GList *r = NULL; while (l) { r = g_list_append(r, f(l->data, u)); l = l->next; } return r; }
GList *g_list_concat(GList *a, GList *b)
{ GList *t; if (!b) return a; t = g_list_last(a); if (!t) return b; t->next = b; b->prev = t; return a; }
GList *g_list_reverse(GList *l)
{ GList *last = NULL; while (l) { last = l; l = last->next; last->next = last->prev; last->prev = l; } return last; }
GList *g_list_sort(GList *l, GCompareFunc f)
{
    GList *a, *b;               /* stable insertion by value exchange */
    for (a = l; a; a = a->next)
        for (b = a; b->prev; b = b->prev) {
            if (f(b->prev->data, b->data) > 0) {
                gpointer t = b->prev->data; b->prev->data = b->data; b->data = t;
            } else break;
        }
    return l;
}
void g_list_foreach(GList *l, GFunc f, gpointer u)
{ while (l) { GList *n = l->next; f(l->data, u); l = n; } }
void g_list_free_full(GList *l, GDestroyNotify f) { }

#ifndef VP_HTCAP
#define VP_HTCAP 4
#endif
struct _GHashTable {
    guint n; guint ref;
    gpointer k[VP_HTCAP]; gpointer v[VP_HTCAP];
    GHashFunc hf; GEqualFunc ef; GDestroyNotify kd, vd;
    gboolean rev;
};
#ifdef VP_HT_DIRECT
#define VP_KEQ(t, a, b) ((a) == (b))
#elif defined(VP_HT_STR)
#define VP_KEQ(t, a, b) (strcmp((a), (b)) == 0)
#else
#define VP_KEQ(t, a, b) (((t)->ef == NULL || (t)->ef == g_direct_equal) ? (a) == (b) : strcmp((a), (b)) == 0)
#endif
GHashTable *g_hash_table_new_full(GHashFunc h, GEqualFunc e, GDestroyNotify kd, GDestroyNotify vd)
{
    GHashTable *t = malloc(sizeof(GHashTable));
    t->n = 0; t->ref = 1; t->hf = h; t->ef = e; t->kd = kd; t->vd = vd;
#ifdef VP_HT_REV
    t->rev = VP_HT_REV;
#else
    t->rev = nondet_vp_u8() & 1;
#endif
    return t;
}
GHashTable *g_hash_table_new(GHashFunc h, GEqualFunc e) { return g_hash_table_new_full(h, e, NULL, NULL); }
GHashTable *g_hash_table_ref(GHashTable *t) { t->ref++; return t; }
void g_hash_table_unref(GHashTable *t)
{ VP_ASSERT(t != NULL && t->ref > 0, "hash table released once"); t->ref--; }
void g_hash_table_destroy(GHashTable *t) { g_hash_table_unref(t); }
guint g_hash_table_size(GHashTable *t) { return t->n; }
static int vp_ht_idx(GHashTable *t, gconstpointer k)
{
    guint i; int r = -1;
    for (i = 0; i < VP_HTCAP; i++)
        if (i < t->n && r < 0 && VP_KEQ(t, t->k[i], k)) r = (int)i;
    return r;
}
gpointer g_hash_table_lookup(GHashTable *t, gconstpointer k)
{ int i = vp_ht_idx(t, k); return i < 0 ? NULL : t->v[i]; }
gboolean g_hash_table_contains(GHashTable *t, gconstpointer k) { return vp_ht_idx(t, k) >= 0; }
gboolean g_hash_table_lookup_extended(GHashTable *t, gconstpointer k, gpointer *ok, gpointer *ov)
{
    int i = vp_ht_idx(t, k);
    if (i < 0) return FALSE;
    if (ok) *ok = t->k[i];
    if (ov) *ov = t->v[i];
    return TRUE;
}
gboolean g_hash_table_insert(GHashTable *t, gpointer k, gpointer v)
{
    int i = vp_ht_idx(t, k);
    if (i >= 0) { t->v[i] = v; return FALSE; }
    __CPROVER_assert(t->n < VP_HTCAP, "BOUND hash table capacity");
    __CPROVER_assume(t->n < VP_HTCAP);
    t->k[t->n] = k; t->v[t->n] = v; t->n++;
    return TRUE;
}
gboolean g_hash_table_replace(GHashTable *t, gpointer k, gpointer v)
{
    int i = vp_ht_idx(t, k);
    if (i >= 0) { t->k[i] = k; t->v[i] = v; return FALSE; }
    return g_hash_table_insert(t, k, v);
}
gboolean g_hash_table_add(GHashTable *t, gpointer k) { return g_hash_table_replace(t, k, k); }
gboolean g_hash_table_remove(GHashTable *t, gconstpointer k)
{
    int i = vp_ht_idx(t, k); guint j;
    if (i < 0) return FALSE;
    for (j = 0; j + 1 < VP_HTCAP; j++)
        if (j >= (guint)i && j + 1 < t->n) { t->k[j] = t->k[j + 1]; t->v[j] = t->v[j + 1]; }
    t->n--;
    return TRUE;
}
#ifndef VP_OWN_REMOVE_ALL
void g_hash_table_remove_all(GHashTable *t) { t->n = 0; }
#endif
void g_hash_table_foreach(GHashTable *t, GHFunc f, gpointer u)
{
    guint i;
    for (i = 0; i < t->n; i++) {
        guint j = t->rev ? t->n - 1 - i : i;
        f(t->k[j], t->v[j], u);
    }
}
GList *g_hash_table_get_keys(GHashTable *t)
{
    GList *r = NULL; guint i;
    for (i = 0; i < t->n; i++) r = g_list_append(r, t->k[t->rev ? t->n - 1 - i : i]);
    return r;
}
GList *g_hash_table_get_values(GHashTable *t)
{
    GList *r = NULL; guint i;
    for (i = 0; i < t->n; i++) r = g_list_append(r, t->v[t->rev ? t->n - 1 - i : i]);
    return r;
}
const char *vp_ht_key(GHashTable *t, guint i) { return t->k[i]; }
const char *vp_ht_value(GHashTable *t, guint i) { return t->v[i]; }
void g_hash_table_iter_init(GHashTableIter *it, GHashTable *t)
{ it->dummy1 = t; it->dummy4 = 0; }
gboolean g_hash_table_iter_next(GHashTableIter *it, gpointer *k, gpointer *v)
{
    GHashTable *t = it->dummy1; guint i = (guint)it->dummy4, j;
    if (i >= t->n) return FALSE;
    j = t->rev ? t->n - 1 - i : i;
    if (k) *k = t->k[j];
    if (v) *v = t->v[j];
    it->dummy4 = (int)i + 1;
    return TRUE;
}

#ifndef VP_OWN_GQUEUE
GQueue *g_queue_new(void) { return calloc(1, sizeof(GQueue)); }
void g_queue_free(GQueue *q) { }
gboolean g_queue_is_empty(GQueue *q) { return q->head == NULL; }
guint g_queue_get_length(GQueue *q) { return q->length; }
void g_queue_push_tail(GQueue *q, gpointer d)
{
    GList *n = vp_node(d);
    n->prev = q->tail;
    if (q->tail) q->tail->next = n; else q->head = n;
    q->tail = n; q->length++;
}
void g_queue_push_head(GQueue *q, gpointer d)
{
    GList *n = vp_node(d);
    n->next = q->head;
    if (q->head) q->head->prev = n; else q->tail = n;
    q->head = n; q->length++;
}
static void vp_q_unlink(GQueue *q, GList *n)
{
    if (n->prev) n->prev->next = n->next; else q->head = n->next;
    if (n->next) n->next->prev = n->prev; else q->tail = n->prev;
    q->length--;
}
gpointer g_queue_pop_head(GQueue *q) { GList *n = q->head; if (!n) return NULL; vp_q_unlink(q, n); return n->data; }
gpointer g_queue_pop_tail(GQueue *q) { GList *n = q->tail; if (!n) return NULL; vp_q_unlink(q, n); return n->data; }
gpointer g_queue_peek_head(GQueue *q) { return q->head ? q->head->data : NULL; }
gpointer g_queue_peek_tail(GQueue *q) { return q->tail ? q->tail->data : NULL; }
GList *g_queue_find(GQueue *q, gconstpointer d) { return g_list_find(q->head, d); }
gboolean g_queue_remove(GQueue *q, gconstpointer d)
{ GList *n = g_list_find(q->head, d); if (!n) return FALSE; vp_q_unlink(q, n); return TRUE; }
void g_queue_clear(GQueue *q) { q->head = q->tail = NULL; q->length = 0; }
#endif
#endif

#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
