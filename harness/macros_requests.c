/* CUT: milter/core/milter-macros-requests.c merge_requests 0 */
/* CUT: milter/core/milter-macros-requests.c merge_requests 1 */
/* CUT: milter/core/milter-macros-requests.c milter_macros_requests_set_symbols_string_array 0 */
/* The contract of MilterMacrosRequests: the macros asked for at a command are
 * those set for it, and after a merge those of both sides, each once.
 *
 *  A  lists of any number of symbols: any element is followed through each of
 *     the loops; a list built is what was appended to it, in order
 *  N  the same over real lists and tables */
#include "vp.h"
#ifdef VP_A
static gpointer my_lookup(GHashTable *t, gconstpointer k);
static gboolean my_insert(GHashTable *t, gpointer k, gpointer v);
static void my_foreach(GHashTable *t, GHFunc f, gpointer u);
static GList *my_append(GList *l, gpointer d);
static GList *my_find(GList *l, gconstpointer d, GCompareFunc f);
#define g_hash_table_lookup my_lookup
#define g_hash_table_insert my_insert
#define g_hash_table_replace my_insert
#define g_hash_table_foreach my_foreach
#define g_list_append my_append
#define g_list_find_custom my_find
#endif
#include "milter/core/milter-macros-requests.c"
#ifdef VP_A
#undef g_hash_table_lookup
#undef g_hash_table_insert
#undef g_hash_table_replace
#undef g_hash_table_foreach
#undef g_list_append
#undef g_list_find_custom
#endif

static struct { GObject o[2]; } a_, b_;
#define DEST ((MilterMacrosRequests *)&a_)
#define SRC ((MilterMacrosRequests *)&b_)
static MilterMacrosRequestsPrivate dp_, sp_;
static MilterMacrosRequestsClass klass_;
GParamSpec *g_param_spec_pointer(const gchar *n, const gchar *a, const gchar *b, GParamFlags f) { return NULL; }
void g_object_class_install_property(GObjectClass *c, guint id, GParamSpec *s) { }
gpointer g_object_new(GType t, const gchar *f, ...) { return DEST; }

#ifdef VP_A
static GHashTable *dest_t, *src_t; static gpointer key_; static GList *had_, *asked_;
static GList seq_; static int some_;            /* the list built: has it an element? */
static const gchar *last_; static int n_app, n_find, n_insert, n_foreach, n_lookup; static GList *inserted_;
static int found_; static const gchar *find_what;
static gpointer my_lookup(GHashTable *t, gconstpointer k)
{
    n_lookup++;
#ifdef CASE_get
    VP_ASSERT(t == src_t && k == key_, "the symbols of this command");
    return asked_;
#else
    VP_ASSERT(t == dest_t && k == key_, "the symbols of this command");
    VP_ASSERT(n_insert == 0, "before they are replaced");
    return had_;
#endif
}
static gboolean my_insert(GHashTable *t, gpointer k, gpointer v)
{
    VP_ASSERT(t == dest_t && k == key_, "the symbols of this command");
    n_insert++; inserted_ = v;
    return TRUE;
}
static void my_foreach(GHashTable *t, GHFunc f, gpointer u)
{
    VP_ASSERT(t == src_t, "the commands of the other requests");
    n_foreach++;
    f(key_, asked_, u);         /* any of them */
}
static GList *my_append(GList *l, gpointer d)
{
    VP_ASSERT(l == (some_ ? &seq_ : NULL), "appended to the list being built");
    n_app++; last_ = d; some_ = 1;
    return &seq_;
}
static GList *my_find(GList *l, gconstpointer d, GCompareFunc f)
{
    VP_ASSERT(l == (some_ ? &seq_ : NULL), "looked for in the list being built");
    VP_ASSERT(f == (GCompareFunc)g_utf8_collate || f == (GCompareFunc)strcmp || f == (GCompareFunc)g_strcmp0, "symbols are compared as texts");
    n_find++; find_what = d;
    found_ = some_ && vp_bool("found");
    return found_ ? &seq_ : NULL;
}
/* lists of any length: two elements of each, from the start or from anywhere */
static GList D_[2], S_[2]; static gchar *d_text[2], *s_text[2], *strings_[3];
static void lists(GList *l, gchar **t, GList **head)
{
    int i;
    for (i = 0; i < 2; i++) { t[i] = vp_cstr("symbol"); l[i].data = t[i]; l[i].next = NULL; l[i].prev = NULL; }
    if (vp_bool("more")) { l[0].next = &l[1]; l[1].prev = &l[0]; }
    *head = vp_bool("some") ? l : NULL;
}
static int copy_of(const gchar *p, const gchar *q) { return p != q && vp_origin(p) == vp_origin(q) && vp_len(p) == vp_len(q); }
void vp_cut_dest(int *phase, GList **node, GList **copied)
{
    if (*phase == 0) {
        VP_ASSERT(*node == had_ && !some_ && !*copied, "the symbols there come first");
        if (had_ && vp_bool("later")) { some_ = 1; *copied = &seq_; }
        n_app = n_find = 0;
        (*phase)++;
        if (!*node) (*phase)++;
    } else if (*phase == 1) {
        VP_ASSERT(n_app == 1 && copy_of(last_, d_text[0]) && *copied == &seq_, "a symbol there stays, as a copy");
        VP_ASSERT(*node == D_[0].next, "one symbol after the other");
        if (D_[0].next) { VP_REACH("another symbol of this side"); vp_assume(0); }
        VP_REACH("last symbol of this side");
        (*phase)++;
    }
}
static int dest_done;
void vp_cut_src(int *phase, GList **node, GList **copied)
{
    if (*phase == 0) {
        dest_done = 1;
        VP_ASSERT(*node == asked_ && *copied == (some_ ? &seq_ : NULL), "then the symbols of the other side");
        VP_ASSERT(VP_IMPLIES(had_, some_), "after the symbols there");
        if (asked_ && vp_bool("later")) { some_ = 1; *copied = &seq_; }
        n_app = n_find = 0;
        (*phase)++;
        if (!*node) (*phase)++;
    } else if (*phase == 1) {
        VP_ASSERT(n_find == 1 && vp_origin(find_what) == vp_origin(s_text[0]), "a symbol is looked for once");
        VP_ASSERT(n_app == !found_ && VP_IMPLIES(n_app, copy_of(last_, s_text[0])), "a symbol not there is added, as a copy, another one is not");
        VP_ASSERT(*copied == &seq_ && *node == S_[0].next, "one symbol after the other");
        if (S_[0].next) { VP_REACH("another symbol of the other side"); vp_assume(0); }
        VP_REACH("last symbol of the other side");
        (*phase)++;
    }
}
static int strings_later;
void vp_cut_strings(int *phase, gint *i, GList **symbols)
{
    if (*phase == 0) {
        VP_ASSERT(*i == 0 && !*symbols, "the first symbol comes first");
        if (strings_[0] && vp_bool("later")) { some_ = 1; *symbols = &seq_; strings_later = 1; }
        n_app = 0;
        (*phase)++;
        if (!strings_[0]) (*phase)++;
    } else if (*phase == 1) {
        VP_ASSERT(n_app == 1 && copy_of(last_, strings_[0]) && *symbols == &seq_ && *i == 1, "every symbol is taken, as a copy, in order");
        if (strings_[1]) { VP_REACH("another symbol"); vp_assume(0); }
        VP_REACH("last symbol");
        (*phase)++;
    }
}
#else
static const gchar *const names_[] = {"i", "j", "{auth_type}", "", "I"};
static int has(GList *l, const gchar *s) { for (; l; l = l->next) if (!strcmp(l->data, s)) return 1; return 0; }
#endif

int vp_main(void)
{
    MilterCommand command = vp_u8("command");
    vp_witness();
    vp_set_private(DEST, MILTER_TYPE_MACROS_REQUESTS, &dp_); vp_set_private(SRC, MILTER_TYPE_MACROS_REQUESTS, &sp_);
    vp_class_init(MILTER_TYPE_MACROS_REQUESTS, &klass_);
    vp_instance_init(MILTER_TYPE_MACROS_REQUESTS, DEST); vp_instance_init(MILTER_TYPE_MACROS_REQUESTS, SRC);
    VP_ASSERT(dp_.symbols_table && sp_.symbols_table && dp_.symbols_table != sp_.symbols_table, "each has its own");
#ifdef VP_A
    dest_t = dp_.symbols_table; src_t = sp_.symbols_table; key_ = GINT_TO_POINTER(command);
    lists(D_, d_text, &had_); lists(S_, s_text, &asked_);
#if defined(CASE_merge)
    if (vp_bool("none")) { asked_ = NULL; }
    milter_macros_requests_merge(DEST, SRC);
    VP_ASSERT(n_foreach == 1 && n_insert == 1 && dest_done, "the symbols of every command are merged");
    VP_ASSERT(inserted_ == (some_ ? &seq_ : NULL) && some_ == (had_ || asked_), "into those asked for");
    VP_ASSERT((!had_ || !had_->next) && (!asked_ || !asked_->next), "none is left out");    /* with another one, the way ends at the head of the loop */
    VP_ASSERT(D_[0].data == d_text[0] && S_[0].data == s_text[0], "what was merged stays");
    if (inserted_) VP_REACH("merged");
#elif defined(CASE_set)
    { int n = vp_below("n", 3); strings_[0] = n > 0 ? vp_cstr("symbol") : NULL; strings_[1] = n > 1 ? vp_cstr("symbol") : NULL; }
    milter_macros_requests_set_symbols_string_array(DEST, command, (const gchar **)strings_);
    VP_ASSERT(n_insert == 1 && inserted_ == (some_ ? &seq_ : NULL) && some_ == (strings_[0] != NULL), "these are the symbols of the command");
    VP_ASSERT(!strings_[0] || !strings_[1], "none is left out");        /* as above */
    VP_REACH("set");
#else
    VP_ASSERT(milter_macros_requests_get_symbols(SRC, command) == asked_ && n_lookup == 1, "the symbols set are given");
    VP_REACH("get");
#endif
#else
    {
        const gchar *set[2][2][6]; int n[2][2], s, c, i, k; MilterMacrosRequests *r[2] = {DEST, SRC};
        for (s = 0; s < 2; s++) for (c = 0; c < 2; c++) {
            n[s][c] = vp_below("n", 4);
            for (i = 0; i < n[s][c]; i++) set[s][c][i] = names_[vp_below("symbol", 5)];
            set[s][c][i] = NULL;
            if (vp_bool("set") && n[s][c]) {
                if (vp_bool("twice")) milter_macros_requests_set_symbols(r[s], command + c, "old", NULL);
                if (n[s][c] == 2) milter_macros_requests_set_symbols(r[s], command + c, set[s][c][0], set[s][c][1], NULL);
                else milter_macros_requests_set_symbols_string_array(r[s], command + c, set[s][c]);
            } else n[s][c] = 0;
            {
                GList *l = milter_macros_requests_get_symbols(r[s], command + c);
                for (i = 0; i < n[s][c]; i++, l = l->next) VP_ASSERT(l && !strcmp(l->data, set[s][c][i]) && l->data != set[s][c][i], "the symbols set are given");
                VP_ASSERT(!l, "and no others");
            }
        }
        milter_macros_requests_merge(DEST, SRC);
        for (c = 0; c < 2; c++) {
            GList *l = milter_macros_requests_get_symbols(DEST, command + c), *m = l;
            for (i = 0; i < n[0][c]; i++, l = l->next) VP_ASSERT(l && !strcmp(l->data, set[0][c][i]), "a symbol there stays, as a copy");
            for (i = 0; i < n[1][c]; i++) VP_ASSERT(has(m, set[1][c][i]), "a symbol not there is added, as a copy, another one is not");
            for (; l; l = l->next) {
                for (k = 0, i = 0; i < n[1][c]; i++) k |= !strcmp(set[1][c][i], l->data);
                VP_ASSERT(k && !has(l->next, l->data), "a symbol is asked for once");
            }
            l = milter_macros_requests_get_symbols(SRC, command + c);
            for (i = 0; i < n[1][c]; i++, l = l->next) VP_ASSERT(l && !strcmp(l->data, set[1][c][i]), "what was merged stays");
        }
        g_hash_table_unref(dp_.symbols_table); g_hash_table_unref(sp_.symbols_table);
    }
#endif
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
