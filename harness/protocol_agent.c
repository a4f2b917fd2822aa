/* The contract of the macros of a session (milter-protocol-agent.c): at a
 * command a macro has the value it was given at the latest command so far;
 * whatever defines or drops macros is seen at once.
 *
 * All commands of the protocol are covered; of the names, any two (macros are
 * kept by name, names are only compared). A text and its copies are told
 * apart: a copy of p is p + 2. */
#include "vp.h"
#ifdef VP_CBMC
static GHashTable *my_new(GHashFunc h, GEqualFunc e, GDestroyNotify kd, GDestroyNotify vd);
static gpointer my_lookup(GHashTable *t, gconstpointer k);
static gboolean my_insert(GHashTable *t, gpointer k, gpointer v);
static gboolean my_replace(GHashTable *t, gpointer k, gpointer v);
static gboolean my_remove(GHashTable *t, gconstpointer k);
static void my_remove_all(GHashTable *t);
static void my_foreach(GHashTable *t, GHFunc f, gpointer u);
static void my_unref(GHashTable *t);
static gchar *my_dup(const gchar *s);
#define g_hash_table_new_full my_new
#define g_hash_table_lookup my_lookup
#define g_hash_table_insert my_insert
#define g_hash_table_replace my_replace
#define g_hash_table_remove my_remove
#define g_hash_table_remove_all my_remove_all
#define g_hash_table_foreach my_foreach
#define g_hash_table_unref my_unref
#define g_strdup(s) my_dup(s)
static gsize my_len(const char *s) { gsize i = 0; while (s[i]) i++; return i; }
static gboolean my_prefix(const gchar *s, const gchar *p) { gsize i; for (i = 0; p[i]; i++) if (s[i] != p[i]) return FALSE; return TRUE; }
static gboolean my_suffix(const gchar *s, const gchar *p) { gsize a = my_len(s), b = my_len(p); return a >= b && my_prefix(s + a - b, p); }
static gchar *my_ndup(const gchar *s, gsize n);
#undef g_str_has_prefix
#undef g_str_has_suffix
#define g_str_has_prefix my_prefix
#define g_str_has_suffix my_suffix
#define g_strndup my_ndup
#define strlen my_len
#endif
#include "milter/core/milter-protocol-agent.c"
static void merge_hash_string_string_element (gpointer _key, gpointer _value, gpointer user_data);
#include "milter/core/milter-utils.c"
#ifdef VP_CBMC
#undef g_hash_table_new_full
#undef g_hash_table_lookup
#undef g_hash_table_insert
#undef g_hash_table_replace
#undef g_hash_table_remove
#undef g_hash_table_remove_all
#undef g_hash_table_foreach
#undef g_hash_table_unref
#undef g_strdup
#undef g_str_has_prefix
#undef g_str_has_suffix
#undef g_strndup
#undef strlen
#endif
GType milter_agent_get_type(void) { return 80; }
GType milter_command_get_type(void) { return 84; }
GType milter_macros_requests_get_type(void) { return 88; }
static struct { GObject o[8]; } obj_;
#define AGENT ((MilterProtocolAgent *)&obj_)
static MilterProtocolAgentPrivate priv_;
static MilterProtocolAgentClass klass_;
GParamSpec *g_param_spec_enum(const gchar *n, const gchar *a, const gchar *b, GType t, gint d, GParamFlags f) { return NULL; }
void g_object_class_install_property(GObjectClass *c, guint id, GParamSpec *s) { }

/* the commands in the order of a session; the rest belong to no part of it */
static const char order_[] = "CHMRTLNBE", rest_[] = "UAQ";
#define NC 12
static int command_at(int i) { return i < 9 ? order_[i] : rest_[i - 9]; }
static int index_of(int c) { int i, r = -1; for (i = 0; i < NC; i++) if (command_at(i) == c) r = i; return r; }

/* what each command defined: has_[command][name], value_[command][name] */
static int has_[NC][2]; static const char *value_[NC][2]; static int table_[NC];
#ifdef VP_CBMC
static const char *const name_[2] = {"i\0i\0i\0i", "j\0j\0j\0j"};
/* values are not looked into: value n is the number n * 4, its copies the
 * numbers after it; a table is its number */
static guint n_text;
static const char *a_value(void) { return GUINT_TO_POINTER(++n_text * 4); }
#define NUM(p) ((guint)(gsize)(p))
#define base(v) (NUM(v) / 4)
/* table 1: that of the commands; others: macros of a command */
#define NTAB 20
static int used_[NTAB], dead_[NTAB], h0_[NTAB], h1_[NTAB]; static guint v0_[NTAB], v1_[NTAB], in_[NC], n_tab = 1; static int order_rev;
static gchar *my_dup(const gchar *s)
{
    if (!s) return NULL;
    if ((gsize)s < 4096) return (gchar *)GUINT_TO_POINTER(NUM(s) + 1);
    return (gchar *)s + 2;
}
static guint live(GHashTable *t) { guint n = NUM(t); VP_ASSERT(n > 0 && n < NTAB && used_[n] && !dead_[n], "a table in use"); vp_assume(n > 0 && n < NTAB); return n; }
static GHashTable *my_new(GHashFunc h, GEqualFunc e, GDestroyNotify kd, GDestroyNotify vd)
{
    VP_ASSERT(n_tab < NTAB, "model: tables"); vp_assume(n_tab < NTAB);
    used_[n_tab] = 1;
    if (n_tab == 1) VP_ASSERT(e == g_direct_equal && !kd && vd, "the tables are owned");
    else VP_ASSERT(e == g_str_equal && kd == g_free && vd == g_free, "the texts are owned");
    return GUINT_TO_POINTER(n_tab++);
}
static char part_[8];
static gchar *my_ndup(const gchar *s, gsize n)
{
    gsize i;
    VP_ASSERT(n < 8, "no more than the name"); vp_assume(n < 8);
    for (i = 0; i < n; i++) part_[i] = s[i];
    part_[n] = 0;
    return part_;
}
static int name_of(gconstpointer k) { const char *s = k; return s[0] == 'i' && !s[1] ? 0 : s[0] == 'j' && !s[1] ? 1 : -1; }
static int command_of(gconstpointer k) { int i = index_of(GPOINTER_TO_INT(k)); VP_ASSERT(i >= 0, "a command"); vp_assume(i >= 0); return i; }
static gpointer my_lookup(GHashTable *ht, gconstpointer k)
{
    guint t = live(ht); int i;
    if (t == 1) return GUINT_TO_POINTER(in_[command_of(k)]);
    i = name_of(k);
    return GUINT_TO_POINTER(i == 0 && h0_[t] ? v0_[t] : i == 1 && h1_[t] ? v1_[t] : 0);
}
static void drop(int i) { if (in_[i]) dead_[in_[i]] = 1; in_[i] = 0; }
static gboolean put(GHashTable *ht, gpointer k, gpointer v)
{
    guint t = live(ht); int i;
    if (t == 1) { i = command_of(k); drop(i); in_[i] = NUM(v); return TRUE; }
    i = name_of(k); VP_ASSERT(i >= 0, "a macro"); vp_assume(i >= 0);
    VP_ASSERT(k != (gpointer)name_[0] && k != (gpointer)name_[1] && v && NUM(v) % 4, "a copy is kept");
    if (i == 0) { h0_[t] = 1; v0_[t] = NUM(v); } else { h1_[t] = 1; v1_[t] = NUM(v); }
    return TRUE;
}
static gboolean my_insert(GHashTable *t, gpointer k, gpointer v) { return put(t, k, v); }
static gboolean my_replace(GHashTable *t, gpointer k, gpointer v) { return put(t, k, v); }
static gboolean my_remove(GHashTable *ht, gconstpointer k)
{
    guint t = live(ht); int i;
    if (t == 1) { drop(command_of(k)); return TRUE; }
    i = name_of(k);
    if (i == 0) h0_[t] = 0;
    if (i == 1) h1_[t] = 0;
    return TRUE;
}
static void my_remove_all(GHashTable *ht)
{
    guint t = live(ht); int i;
    if (t == 1) { for (i = 0; i < NC; i++) drop(i); return; }
    h0_[t] = h1_[t] = 0;
}
static void my_foreach(GHashTable *ht, GHFunc f, gpointer u)
{
    guint t = live(ht);
    VP_ASSERT(t != 1, "the macros of a command");
    if (order_rev && h1_[t]) f((gpointer)name_[1], GUINT_TO_POINTER(v1_[t]), u);
    if (h0_[t]) f((gpointer)name_[0], GUINT_TO_POINTER(v0_[t]), u);
    if (!order_rev && h1_[t]) f((gpointer)name_[1], GUINT_TO_POINTER(v1_[t]), u);
}
static void my_unref(GHashTable *ht) { dead_[live(ht)] = 1; }
#define same_text(p, q) ((p) && (q) && base(p) == base(q))
#define is_copy(p, q) ((p) != (q))
#else
static const char *const name_[2] = {"i", "j"};
static char text_[40][4]; static int n_text;
static const char *a_value(void) { sprintf(text_[n_text], "%d", n_text); return text_[n_text++]; }
#define same_text(p, q) ((p) && (q) && !strcmp(p, q))
#endif
/* the macros of a command, as they are given */
static GHashTable *given(int *has, const char **v)
{
    int i;
#ifdef VP_CBMC
    GHashTable *t = my_new(g_str_hash, g_str_equal, g_free, g_free);
    h0_[NUM(t)] = has[0]; h1_[NUM(t)] = has[1]; v0_[NUM(t)] = NUM(v[0]); v1_[NUM(t)] = NUM(v[1]);
#else
    GHashTable *t = g_hash_table_new(g_str_hash, g_str_equal);
    for (i = 0; i < 2; i++) if (has[i]) g_hash_table_insert(t, (gpointer)name_[i], (gpointer)v[i]);
#endif
    return t;
}
static int context_;
/* the value of a macro at the current command */
static const char *expected(int k)
{
    int i, at = index_of(context_); const char *r = NULL;
    for (i = 0; i < 9; i++) if ((at >= 9 || i <= at) && has_[i][k]) r = value_[i][k];
    return r;
}
static void check(const char *name, const char *e)
{
    const gchar *v = milter_protocol_agent_get_macro(AGENT, name);
    VP_ASSERT((v != NULL) == (e != NULL), "a macro is there if it was defined at a command so far");
    VP_ASSERT(VP_IMPLIES(e && v, same_text(v, e)), "a macro has the value of the latest command");
}
static void check_all(void)
{
    GHashTable *t; int k, at = index_of(context_);
    check("i", expected(0)); check("j", expected(1)); check("{j}", expected(1));
    t = milter_protocol_agent_get_macros(AGENT);
    VP_ASSERT((t != NULL) == table_[at], "the macros of the command");
    if (t) for (k = 0; k < 2; k++) {
#ifdef VP_CBMC
        const gchar *v = my_lookup(t, name_[k]);
#else
        const gchar *v = g_hash_table_lookup(t, name_[k]);
#endif
        VP_ASSERT((v != NULL) == has_[at][k] && VP_IMPLIES(v, same_text(v, value_[at][k])), "the macros of the command are those given");
    }
}
static void set_context(int c) { context_ = c; milter_protocol_agent_set_macro_context(AGENT, c); }

int vp_main(void)
{
    int i, k, c, h[2]; const char *v[2];
    vp_witness();
    vp_set_private(AGENT, MILTER_TYPE_PROTOCOL_AGENT, &priv_);
    vp_class_init(MILTER_TYPE_PROTOCOL_AGENT, &klass_);
    vp_instance_init(MILTER_TYPE_PROTOCOL_AGENT, AGENT);
    context_ = 'U';
#ifdef VP_CBMC
    order_rev = vp_bool("order");
#endif
    check_all();
    /* any macros at any commands */
    for (i = 0; i < NC; i++) {
        table_[i] = vp_bool("defined");
        for (k = 0; k < 2; k++) { has_[i][k] = table_[i] && vp_bool("macro"); value_[i][k] = a_value(); }
#ifdef VP_CBMC
        {
            GHashTable *t = my_new(g_str_hash, g_str_equal, g_free, g_free);
            h0_[NUM(t)] = has_[i][0]; h1_[NUM(t)] = has_[i][1]; v0_[NUM(t)] = NUM(value_[i][0]) + 1; v1_[NUM(t)] = NUM(value_[i][1]) + 1;
            if (table_[i]) in_[i] = NUM(t);
        }
#else
        if (table_[i]) milter_protocol_agent_set_macros_hash_table(AGENT, command_at(i), given(has_[i], value_[i]));
#endif
    }
    set_context(command_at(vp_below("context", NC)));
    if (vp_bool("seen")) { check("i", expected(0)); VP_REACH("macros were asked for before"); }
    i = vp_below("command", NC); c = command_at(i);
    for (k = 0; k < 2; k++) { h[k] = vp_bool("macro"); v[k] = a_value(); }
#if defined(CASE_define)
    milter_protocol_agent_set_macros_hash_table(AGENT, c, given(h, v));
    table_[i] = 1;
    for (k = 0; k < 2; k++) { has_[i][k] = h[k]; value_[i][k] = v[k]; }
    VP_REACH("define");
#elif defined(CASE_set_macro)
    milter_protocol_agent_set_macro(AGENT, c, name_[1], h[1] ? v[1] : NULL);
    table_[i] = 1; has_[i][1] = h[1]; value_[i][1] = v[1];
    VP_REACH("set");
#elif defined(CASE_set_macros)
    if (vp_bool("one")) { h[0] = has_[i][0]; v[0] = value_[i][0]; milter_protocol_agent_set_macros(AGENT, c, name_[1], h[1] ? v[1] : NULL, NULL); }
    else milter_protocol_agent_set_macros(AGENT, c, name_[0], h[0] ? v[0] : NULL, name_[1], h[1] ? v[1] : NULL, NULL);
    table_[i] = 1;
    for (k = 0; k < 2; k++) { has_[i][k] = h[k]; value_[i][k] = v[k]; }
    VP_REACH("set");
#elif defined(CASE_clear)
    milter_protocol_agent_clear_macros(AGENT, c);
    table_[i] = has_[i][0] = has_[i][1] = 0;
    VP_REACH("clear");
#elif defined(CASE_clear_message)
    milter_protocol_agent_clear_message_related_macros(AGENT);
    for (i = 2; i < 9; i++) table_[i] = has_[i][0] = has_[i][1] = 0;
    VP_REACH("clear");
#elif defined(CASE_context)
    set_context(c);
    VP_REACH("context");
#else
    {
        GHashTable *t = milter_protocol_agent_get_available_macros(AGENT);
        VP_ASSERT(t != NULL && t == milter_protocol_agent_get_available_macros(AGENT), "the macros are given");
        for (k = 0; k < 2; k++) {
#ifdef VP_CBMC
            const gchar *x = my_lookup(t, name_[k]);
#else
            const gchar *x = g_hash_table_lookup(t, name_[k]);
#endif
            VP_ASSERT((x != NULL) == (expected(k) != NULL) && VP_IMPLIES(x, same_text(x, expected(k))), "all macros defined so far, with the values of the latest command");
        }
        check(NULL, NULL); check("", NULL); check("{", NULL); check("{}", NULL); check("x", NULL); check("{i", NULL); check("i}", NULL);
        check("{i}", expected(0));
        VP_REACH("available");
    }
#endif
    check_all();
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
