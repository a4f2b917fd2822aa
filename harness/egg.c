/* CUT: milter/manager/milter-manager-egg.c milter_manager_egg_merge 0 */
/* CUT: milter/manager/milter-manager-egg.c milter_manager_egg_attach_applicable_conditions 0 */
/* The contract of a milter as configured (milter-manager-egg.c): a setting is
 * what was set, the milter made of it has every setting, a milter defined
 * again keeps the settings it had, and its conditions are attached in order. */
#include "vp.h"
#define VP_OWN_REFCOUNT 1
#include <string.h>
#include <glib-object.h>
#include <milter/core.h>
#include <milter/server.h>
#include <milter/manager.h>
static gchar *my_strdup(const gchar *s);
static void my_free(gpointer p);
static GList *my_append(GList *l, gpointer d);
static void my_foreach(GList *l, GFunc f, gpointer u);
static void my_list_free(GList *l);
static void my_free_full(GList *l, GDestroyNotify f);
#undef g_strdup
#undef g_free
#undef g_value_dup_string
#define g_strdup my_strdup
#define g_free my_free
#define g_list_append my_append
#define g_list_foreach my_foreach
#define g_list_free my_list_free
#define g_list_free_full my_free_full
#include "milter/manager/milter-manager-egg.c"
#undef g_strdup
#undef g_free
#undef g_list_append
#undef g_list_foreach
#undef g_list_free
#undef g_list_free_full

static struct { GObject o[4]; } egg_, oth_, child_, kids_, ctx_;
#define EGG ((MilterManagerEgg *)&egg_)
#define OTHER ((MilterManagerEgg *)&oth_)
#define CHILD ((MilterManagerChild *)&child_)
static MilterManagerEggPrivate p_, q_, was_;
static MilterManagerEggClass klass_;
static struct sockaddr_storage addr_;

/* texts: which one, and of which one a copy it is */
enum { NAME, DESCRIPTION, SPEC, USER, COMMAND, OPTIONS, N };
static gchar own_t[N], oth_t[N], arg_t, cp_t[16];
static const gchar *cp_of[16];
static int n_cp, own_freed[N], cp_freed[16], n_addr, addr_freed;
static gchar *my_strdup(const gchar *s)
{
    int i;
    if (!s) return NULL;
    for (i = 0; i < N; i++) VP_ASSERT(s != &own_t[i] || !own_freed[i], "nothing freed is copied");
    VP_ASSERT(n_cp < 16, "as many copies as settings");
    vp_assume(n_cp < 16);
    cp_of[n_cp] = s;
    return &cp_t[n_cp++];
}
static void my_free(gpointer p)
{
    int i;
    if (!p) return;
    if (p == (gpointer)&addr_) { addr_freed++; return; }
    for (i = 0; i < N; i++) if (p == (gpointer)&own_t[i]) { VP_ASSERT(!own_freed[i], "a setting is freed once"); own_freed[i] = 1; return; }
    for (i = 0; i < 16; i++) if (p == (gpointer)&cp_t[i]) { VP_ASSERT(!cp_freed[i], "a setting is freed once"); cp_freed[i] = 1; return; }
    VP_ASSERT(0, "only its own settings are freed");
}
static int copy_of(const gchar *p, const gchar *s)
{
    int i;
    if (!s) return !p;
    for (i = 0; i < 16; i++) if (p == &cp_t[i]) return i < n_cp && !cp_freed[i] && cp_of[i] == s;
    return 0;
}
static int kept(const gchar *p, int i, const gchar *was) { return p == was && (!was || !own_freed[i]); }

/* conditions: lists of any number */
static GList H_[2], O_[2], seq_, *had_, *oth_l;
static GObject cond_[4];
static int refs_[4], unrefs_[4], some_, n_app, list_freed; static gpointer last_;
static int which(gpointer o) { int i; for (i = 0; i < 4; i++) if (o == (gpointer)&cond_[i]) return i; return -1; }
gpointer (g_object_ref)(gpointer o) { int i = which(o); if (i >= 0) refs_[i]++; return o; }
static int child_unref;
void g_object_unref(gpointer o) { int i = which(o); if (i >= 0) unrefs_[i]++; if (o == (gpointer)CHILD) child_unref++; }
static GList *my_append(GList *l, gpointer d)
{
    VP_ASSERT(l == (some_ ? &seq_ : NULL), "appended to the conditions it has");
    n_app++; last_ = d; some_ = 1;
    return &seq_;
}
static void my_foreach(GList *l, GFunc f, gpointer u) { VP_ASSERT(f == (GFunc)g_object_unref, "they are let go of"); for (; l; l = l->next) g_object_unref(l->data); }
static void my_list_free(GList *l) { if (l) { VP_ASSERT(l == had_ && !list_freed, "its own list is freed"); list_freed++; } }
static void my_free_full(GList *l, GDestroyNotify f) { my_foreach(l, (GFunc)f, NULL); my_list_free(l); }
static GList *list(GList *l, int base)
{
    int i;
    for (i = 0; i < 2; i++) { l[i].data = &cond_[base + i]; l[i].next = l[i].prev = NULL; }
    if (vp_bool("more")) { l[0].next = &l[1]; l[1].prev = &l[0]; }
    return vp_bool("some") ? l : NULL;
}
#define NEXT(who) \
    do { VP_ASSERT(*node == (who)->next, "one condition after the other"); \
         if ((who)->next) { VP_REACH("another condition"); vp_assume(0); } VP_REACH("last condition"); } while (0)
#ifdef VP_A
void vp_cut_merge(int *phase, GList **node)
{
    if (*phase == 0) {
        VP_ASSERT(*node == oth_l && !some_ && !p_.applicable_conditions, "the conditions are those of the other");
        if (oth_l && vp_bool("later")) { some_ = 1; p_.applicable_conditions = &seq_; }
        n_app = 0;
        (*phase)++;
        if (!*node) (*phase)++;
    } else if (*phase == 1) {
        VP_ASSERT(n_app == 1 && last_ == O_[0].data && refs_[2] == 1 && p_.applicable_conditions == &seq_, "each is kept once");
        NEXT(&O_[0]);
        (*phase)++;
    }
}
#endif
static int n_attach;
void milter_manager_applicable_condition_attach_to(MilterManagerApplicableCondition *c, MilterManagerChild *k, MilterManagerChildren *s, MilterClientContext *x)
{
    VP_ASSERT(had_ && (gpointer)k == (gpointer)CHILD && (gpointer)s == (gpointer)&kids_ && (gpointer)x == (gpointer)&ctx_, "to this milter of this session");
#ifdef VP_A
    VP_ASSERT((gpointer)c == H_[n_attach > 0].data && n_attach < 2, "each condition is attached, in order");
#else
    VP_ASSERT((gpointer)c == H_[n_attach].data, "each condition is attached, in order");
#endif
    n_attach++;
}
#ifdef VP_A
void vp_cut_attach(int *phase, GList **node)
{
    if (*phase == 0) {
        VP_ASSERT(*node == had_ && n_attach == 0, "from the first condition on");
        (*phase)++;
        if (!*node) (*phase)++;
    } else if (*phase == 1) {
        VP_ASSERT(n_attach == 1, "each condition is attached once");
        NEXT(&H_[0]);
        (*phase)++;
    }
}
#endif

static int parse_ok; static const gchar *parsed;
#ifdef VP_N
static void fail(GError **e) { *e = g_error_new_literal(1, 1, "e"); }
#else
static GError err_store;
static void fail(GError **e) { *e = &err_store; }
#endif
gboolean milter_connection_parse_spec(const gchar *s, gint *d, struct sockaddr **a, socklen_t *n, GError **e)
{
    parsed = s;
    if (!parse_ok) { fail(e); return FALSE; }
    n_addr++;
    if (a) *a = (struct sockaddr *)&addr_;
    return TRUE;
}
void milter_utils_set_error_with_sub_error(GError **e, GQuark d, gint code, GError *sub, const gchar *f, ...)
{ VP_ASSERT(sub, "there is a cause"); g_set_error(e, d, code, "x"); }

/* the milter made: every setting it is given */
static struct { const gchar *name, *user, *command, *options; gdouble ct, wt, rt, et; int fallback, evaluation; guint seen; } made;
static int n_made, set_ok, n_set, n_hatched; static const gchar *set_spec;
MilterManagerChild *milter_manager_child_new_va_list(const gchar *name, va_list args)
{
    int i;
    n_made++;
    for (i = 0; i < 12 && name; i++) {
        if (!strcmp(name, "name")) { made.name = va_arg(args, gchar *); made.seen |= 1; }
        else if (!strcmp(name, "user-name")) { made.user = va_arg(args, gchar *); made.seen |= 2; }
        else if (!strcmp(name, "command")) { made.command = va_arg(args, gchar *); made.seen |= 4; }
        else if (!strcmp(name, "command-options")) { made.options = va_arg(args, gchar *); made.seen |= 8; }
        else if (!strcmp(name, "connection-timeout")) { made.ct = va_arg(args, gdouble); made.seen |= 16; }
        else if (!strcmp(name, "writing-timeout")) { made.wt = va_arg(args, gdouble); made.seen |= 32; }
        else if (!strcmp(name, "reading-timeout")) { made.rt = va_arg(args, gdouble); made.seen |= 64; }
        else if (!strcmp(name, "end-of-message-timeout")) { made.et = va_arg(args, gdouble); made.seen |= 128; }
        else if (!strcmp(name, "fallback-status")) { made.fallback = va_arg(args, gint); made.seen |= 256; }
        else if (!strcmp(name, "evaluation-mode")) { made.evaluation = va_arg(args, gint); made.seen |= 512; }
        else VP_ASSERT(0, "settings of a milter only");
        name = va_arg(args, const gchar *);
    }
    return CHILD;
}
gboolean milter_server_context_set_connection_spec(MilterServerContext *c, const gchar *spec, GError **e)
{
    VP_ASSERT((gpointer)c == (gpointer)CHILD, "the milter made");
    n_set++; set_spec = spec;
    if (!set_ok) { fail(e); return FALSE; }
    return TRUE;
}
void vp_on_emit(VpEmit *e)
{
    VP_ASSERT(e->instance == (gpointer)EGG && vp_is(e, "hatched") && e->a[0].p == (gpointer)CHILD, "the milter made is told of");
    n_hatched++;
}

static void texts(MilterManagerEggPrivate *p, gchar *t)
{
    p->name = vp_bool("name") ? &t[NAME] : NULL;
    p->description = vp_bool("description") ? &t[DESCRIPTION] : NULL;
    p->connection_spec = vp_bool("spec") ? &t[SPEC] : NULL;
    p->user_name = vp_bool("user") ? &t[USER] : NULL;
    p->command = vp_bool("command") ? &t[COMMAND] : NULL;
    p->command_options = vp_bool("options") ? &t[OPTIONS] : NULL;
    p->enabled = vp_bool("enabled");
    p->connection_timeout = vp_u32("ct"); p->writing_timeout = vp_u32("wt");
    p->reading_timeout = vp_u32("rt"); p->end_of_message_timeout = vp_u32("et");
    p->fallback_status = vp_u8("fallback"); p->evaluation_mode = vp_bool("evaluation");
}
int vp_main(void)
{
    GError *error = NULL;
    gboolean r;
    vp_witness();
    vp_set_private(EGG, milter_manager_egg_get_type(), &p_);
    vp_set_private(OTHER, milter_manager_egg_get_type(), &q_);
    vp_class_init(milter_manager_egg_get_type(), &klass_);
    texts(&p_, own_t);
    p_.applicable_conditions = had_ = list(H_, 0);
    parse_ok = vp_bool("parse"); set_ok = vp_bool("set_ok");
    was_ = p_;
#define SAME(f) VP_ASSERT(p_.f == was_.f, "no other setting changes")
#define SAMES(f, i) VP_ASSERT(kept(p_.f, i, was_.f), "no other setting changes")
#if defined(CASE_set)
    {
        int w = vp_below("which", 13);
        const gchar *s = vp_bool("text") ? &arg_t : NULL;
        guint32 v = vp_u32("value");
        r = TRUE;
        switch (w) {
        case 0: milter_manager_egg_set_name(EGG, s); VP_ASSERT(copy_of(milter_manager_egg_get_name(EGG), s), "a setting is what was set"); break;
        case 1: milter_manager_egg_set_description(EGG, s); VP_ASSERT(copy_of(milter_manager_egg_get_description(EGG), s), "a setting is what was set"); break;
        case 2:
            r = milter_manager_egg_set_connection_spec(EGG, s, &error);
            VP_ASSERT(r == (!s || parse_ok) && (error != NULL) == !r, "an address that cannot be read is refused");
            VP_ASSERT(!s || parsed == s, "it is read as given");
            VP_ASSERT(addr_freed == n_addr, "what was read is let go of once");
            if (r) VP_ASSERT(copy_of(milter_manager_egg_get_connection_spec(EGG), s), "a setting is what was set");
            else VP_ASSERT(kept(p_.connection_spec, SPEC, was_.connection_spec), "a refused address changes nothing");
            if (!r) VP_REACH("refused");
            break;
        case 3: milter_manager_egg_set_user_name(EGG, s); VP_ASSERT(copy_of(milter_manager_egg_get_user_name(EGG), s), "a setting is what was set"); break;
        case 4: milter_manager_egg_set_command(EGG, s); VP_ASSERT(copy_of(milter_manager_egg_get_command(EGG), s), "a setting is what was set"); break;
        case 5: milter_manager_egg_set_command_options(EGG, s); VP_ASSERT(copy_of(milter_manager_egg_get_command_options(EGG), s), "a setting is what was set"); break;
        case 6: milter_manager_egg_set_enabled(EGG, v & 1); VP_ASSERT(milter_manager_egg_is_enabled(EGG) == (v & 1), "a setting is what was set"); break;
        case 7: milter_manager_egg_set_connection_timeout(EGG, v); VP_ASSERT(milter_manager_egg_get_connection_timeout(EGG) == v, "a setting is what was set"); break;
        case 8: milter_manager_egg_set_writing_timeout(EGG, v); VP_ASSERT(milter_manager_egg_get_writing_timeout(EGG) == v, "a setting is what was set"); break;
        case 9: milter_manager_egg_set_reading_timeout(EGG, v); VP_ASSERT(milter_manager_egg_get_reading_timeout(EGG) == v, "a setting is what was set"); break;
        case 10: milter_manager_egg_set_end_of_message_timeout(EGG, v); VP_ASSERT(milter_manager_egg_get_end_of_message_timeout(EGG) == v, "a setting is what was set"); break;
        case 11: milter_manager_egg_set_fallback_status(EGG, v); VP_ASSERT(milter_manager_egg_get_fallback_status(EGG) == v, "a setting is what was set"); break;
        default: milter_manager_egg_set_evaluation_mode(EGG, v & 1); VP_ASSERT(milter_manager_egg_is_evaluation_mode(EGG) == (v & 1), "a setting is what was set"); break;
        }
        VP_REACH("set");
        if (w != 0) SAMES(name, NAME);
        if (w != 1) SAMES(description, DESCRIPTION);
        if (w != 2) SAMES(connection_spec, SPEC);
        if (w != 3) SAMES(user_name, USER);
        if (w != 4) SAMES(command, COMMAND);
        if (w != 5) SAMES(command_options, OPTIONS);
        if (w != 6) SAME(enabled);
        if (w != 7) SAME(connection_timeout);
        if (w != 8) SAME(writing_timeout);
        if (w != 9) SAME(reading_timeout);
        if (w != 10) SAME(end_of_message_timeout);
        if (w != 11) SAME(fallback_status);
        if (w != 12) SAME(evaluation_mode);
        SAME(applicable_conditions);
    }
#elif defined(CASE_hatch)
    {
        MilterManagerChild *c = milter_manager_egg_hatch(EGG);
        VP_REACH("hatched");
        VP_ASSERT(n_made == 1 && made.seen == 1023, "a milter is made, with every setting");
        VP_ASSERT(made.name == p_.name && made.user == p_.user_name && made.command == p_.command && made.options == p_.command_options, "named, run and started as configured");
        VP_ASSERT(made.ct == p_.connection_timeout && made.wt == p_.writing_timeout && made.rt == p_.reading_timeout && made.et == p_.end_of_message_timeout, "waited for as long as configured");
        VP_ASSERT(made.fallback == (int)p_.fallback_status, "with its fallback status");
        VP_ASSERT(made.evaluation == p_.evaluation_mode, "in evaluation mode if so configured");
        VP_ASSERT(n_set == (p_.connection_spec != NULL) && (!n_set || set_spec == p_.connection_spec), "reached at its address");
        VP_ASSERT(n_hatched == (n_set && set_ok), "one that is usable is told of");
        if (!p_.connection_spec) VP_ASSERT(!c && child_unref == 1, "one without an address is none");
        else VP_ASSERT(child_unref == 0 && c == CHILD, "it is the caller's");
    }
#elif defined(CASE_merge)
    {
        int i;
        texts(&q_, oth_t);
        q_.applicable_conditions = oth_l = list(O_, 2);
        r = milter_manager_egg_merge(EGG, OTHER, &error);
        VP_ASSERT(r == (!q_.connection_spec || parse_ok) && (error != NULL) == !r, "an address that cannot be read is refused");
        SAMES(name, NAME);
        if (!r) { VP_ASSERT(kept(p_.connection_spec, SPEC, was_.connection_spec), "a refused address changes nothing"); VP_REACH("refused"); return 0; }
        VP_REACH("merged");
#ifdef VP_A
        VP_ASSERT(!oth_l || !oth_l->next, "none is left out");  /* as above */
#endif
#define TEXT(f, i) VP_ASSERT(q_.f ? copy_of(p_.f, q_.f) : kept(p_.f, i, was_.f), "a setting is that of the other, if it has it")
        TEXT(connection_spec, SPEC); TEXT(description, DESCRIPTION); TEXT(user_name, USER); TEXT(command, COMMAND);
        if (q_.command) VP_ASSERT(copy_of(p_.command_options, q_.command_options), "a command goes with its options");
        else VP_ASSERT(kept(p_.command_options, OPTIONS, was_.command_options), "a command goes with its options");
        VP_ASSERT(p_.connection_timeout == q_.connection_timeout && p_.writing_timeout == q_.writing_timeout &&
                  p_.reading_timeout == q_.reading_timeout && p_.end_of_message_timeout == q_.end_of_message_timeout, "the times are those of the other");
        VP_ASSERT(p_.enabled == q_.enabled, "it is enabled as the other");
        VP_ASSERT(p_.fallback_status == q_.fallback_status, "its fallback status is that of the other");
        VP_ASSERT(p_.evaluation_mode == q_.evaluation_mode, "it is in evaluation mode as the other");
        VP_ASSERT(p_.applicable_conditions == (oth_l ? &seq_ : NULL), "the conditions are those of the other");
        if (had_) {
            VP_ASSERT(list_freed == 1 && unrefs_[0] == 1 && unrefs_[1] == (had_->next != NULL), "those it had are let go of");
        }
        for (i = 2; i < 4; i++) VP_ASSERT(unrefs_[i] == 0, "those of the other stay");
#ifndef VP_A
        if (oth_l) VP_ASSERT(refs_[2] == 1 && refs_[3] == (oth_l->next != NULL) && n_app == 1 + (oth_l->next != NULL), "each is kept once");
#endif
    }
#elif defined(CASE_attach)
    milter_manager_egg_attach_applicable_conditions(EGG, CHILD, (MilterManagerChildren *)&kids_, (MilterClientContext *)&ctx_);
    VP_REACH("attached");
#ifdef VP_A
    VP_ASSERT(n_attach == (had_ != NULL), "each condition is attached once");
    VP_ASSERT(!had_ || !had_->next, "none is left out");        /* with another one, the way ends at the head of the loop */
#else
    VP_ASSERT(n_attach == (had_ ? 1 + (had_->next != NULL) : 0), "each condition is attached once");
#endif
    SAME(applicable_conditions);
#elif defined(CASE_conditions)
    some_ = vp_bool("has"); p_.applicable_conditions = some_ ? &seq_ : NULL;
    milter_manager_egg_add_applicable_condition(EGG, (MilterManagerApplicableCondition *)&cond_[2]);
    VP_ASSERT(n_app == 1 && last_ == (gpointer)&cond_[2] && refs_[2] == 1 && p_.applicable_conditions == &seq_, "a condition added is the last one");
    VP_ASSERT(milter_manager_egg_get_applicable_conditions(EGG) == &seq_, "and known");
    p_.applicable_conditions = had_;
    milter_manager_egg_clear_applicable_conditions(EGG);
    VP_REACH("cleared");
    VP_ASSERT(p_.applicable_conditions == NULL, "no condition is left");
    VP_ASSERT(list_freed == (had_ != NULL) && unrefs_[0] == (had_ != NULL) && unrefs_[1] == (had_ && had_->next), "those it had are let go of");
#else
#error no case
#endif
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
