/* CUT: milter/manager/milter-manager-configuration.c milter_manager_configuration_find_egg 0 */
/* CUT: milter/manager/milter-manager-configuration.c milter_manager_configuration_remove_egg_by_name 0 */
/* CUT: milter/manager/milter-manager-configuration.c milter_manager_configuration_setup_children 0 */
/* CUT: milter/manager/milter-manager-configuration.c milter_manager_configuration_find_applicable_condition 0 */
/* CUT: milter/manager/milter-manager-configuration.c milter_manager_configuration_remove_applicable_condition_by_name 0 */
/* The contract of the milters and conditions configured
 * (milter-manager-configuration.c): each is the one added under its name, and
 * a session gets those enabled, in their order, each with its conditions. */
#include "vp.h"
#define VP_OWN_REFCOUNT 1
#include <string.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include <glib-object.h>
#include <glib/gstdio.h>
#include <milter/core.h>
#include <milter/server.h>
#include <milter/manager.h>
static GList *my_append(GList *l, gpointer d);
static GList *my_delete(GList *l, GList *k);
static void my_foreach(GList *l, GFunc f, gpointer u);
static void my_list_free(GList *l);
static void my_free_full(GList *l, GDestroyNotify f);
static int differ(gconstpointer a, gconstpointer b);
static gboolean same(gconstpointer a, gconstpointer b);
#undef g_str_equal
#undef g_strcmp0
#undef strcmp
/* what the build configures */
#ifndef CUSTOM_CONFIG_FILE_NAME
#define CUSTOM_CONFIG_FILE_NAME "x"
#endif
#ifndef CONFIG_FILE_NAME
#define CONFIG_FILE_NAME "x"
#endif
#ifndef MILTER_MANAGER_DEFAULT_CONNECTION_SPEC
#define MILTER_MANAGER_DEFAULT_CONNECTION_SPEC "x"
#endif
#ifndef MILTER_MANAGER_PACKAGE_PLATFORM
#define MILTER_MANAGER_PACKAGE_PLATFORM "x"
#endif
#ifndef MILTER_MANAGER_PACKAGE_OPTIONS
#define MILTER_MANAGER_PACKAGE_OPTIONS "x"
#endif
#ifndef MILTER_MANAGER_DEFAULT_EFFECTIVE_USER
#define MILTER_MANAGER_DEFAULT_EFFECTIVE_USER "x"
#endif
#ifndef MILTER_MANAGER_DEFAULT_EFFECTIVE_GROUP
#define MILTER_MANAGER_DEFAULT_EFFECTIVE_GROUP "x"
#endif
#ifndef MILTER_MANAGER_DEFAULT_PID_FILE
#define MILTER_MANAGER_DEFAULT_PID_FILE "x"
#endif
#ifndef MILTER_MANAGER_DEFAULT_SOCKET_GROUP
#define MILTER_MANAGER_DEFAULT_SOCKET_GROUP "x"
#endif
#ifndef PREFIX
#define PREFIX "x"
#endif
#ifndef CONFIG_DIR
#define CONFIG_DIR "x"
#endif
#ifndef CONFIGURATION_MODULE_DIR
#define CONFIGURATION_MODULE_DIR "x"
#endif
#ifndef CONFIGURATION_MODULE_SUFFIX
#define CONFIGURATION_MODULE_SUFFIX "x"
#endif
#define g_list_append my_append
#define g_list_delete_link my_delete
#define g_list_foreach my_foreach
#define g_list_free my_list_free
#define g_list_free_full my_free_full
#define g_str_equal same
#define g_strcmp0 differ
#define strcmp differ
#include "milter/manager/milter-manager-configuration.c"
#undef g_list_append
#undef g_list_delete_link
#undef g_list_foreach
#undef g_list_free
#undef g_list_free_full
#undef g_str_equal
#undef g_strcmp0
#undef strcmp

static struct { GObject o[4]; } conf_, child_[2], kids_, ctx_;
#define CONF ((MilterManagerConfiguration *)&conf_)
#define KIDS ((MilterManagerChildren *)&kids_)
#define CTX ((MilterClientContext *)&ctx_)
static MilterManagerConfigurationPrivate p_;
#define P (&p_)

/* any number of eggs (or conditions): two of them, from anywhere */
static GObject item_[3]; static gchar name_[3], wanted_;
static GList L_[2], seq_, *had_;
static int matches[3], enabled[2], hatches[2], eggs;     /* eggs, or conditions */
static int refs_[3], unrefs_[3], child_unref[2], n_app, n_del, list_freed, some_; static gpointer last_; static GList *deleted;
static int which(gconstpointer o) { int i; for (i = 0; i < 3; i++) if (o == (gpointer)&item_[i]) return i; return -1; }
gpointer (g_object_ref)(gpointer o) { int i = which(o); if (i >= 0) refs_[i]++; return o; }
void g_object_unref(gpointer o)
{ int i = which(o); if (i >= 0) unrefs_[i]++; for (i = 0; i < 2; i++) if (o == (gpointer)&child_[i]) child_unref[i]++; }
static gboolean same(gconstpointer a, gconstpointer b)
{
    int i;
    if (a != (gpointer)&wanted_) { gconstpointer t = a; a = b; b = t; }
    VP_ASSERT(a == (gpointer)&wanted_, "the name given is compared");
    for (i = 0; i < 3; i++) if (b == (gpointer)&name_[i]) return matches[i];
    VP_ASSERT(0, "with the name of one of them");
    return FALSE;
}
static int differ(gconstpointer a, gconstpointer b) { return !same(a, b); }
static GList *my_append(GList *l, gpointer d)
{
    VP_ASSERT(l == (some_ ? &seq_ : NULL), "appended to those there are");
    n_app++; last_ = d;
    return &seq_;
}
static GList *my_delete(GList *l, GList *k)
{
    VP_ASSERT(l == had_ && k && !n_del, "one of those there are is removed");
    n_del++; deleted = k;
    return &seq_;
}
static void my_foreach(GList *l, GFunc f, gpointer u)
{ VP_ASSERT(f == (GFunc)g_object_unref, "they are let go of"); for (; l; l = l->next) g_object_unref(l->data); }
static void my_list_free(GList *l) { if (l) { VP_ASSERT(l == had_ && !list_freed, "the list there was is freed"); list_freed++; } }
static void my_free_full(GList *l, GDestroyNotify f) { my_foreach(l, (GFunc)f, NULL); my_list_free(l); }

const gchar *milter_manager_egg_get_name(MilterManagerEgg *e) { int i = which(e); VP_ASSERT(eggs && i >= 0, "of a milter"); return &name_[i < 0 ? 0 : i]; }
const gchar *milter_manager_applicable_condition_get_name(MilterManagerApplicableCondition *e) { int i = which(e); VP_ASSERT(!eggs && i >= 0, "of a condition"); return &name_[i < 0 ? 0 : i]; }
gboolean milter_manager_egg_is_enabled(MilterManagerEgg *e) { int i = which(e); VP_ASSERT(i == 0 || i == 1, "one of those configured"); return enabled[i == 1]; }
static int n_hatch[2], n_add[2], n_attach[2], order;
MilterManagerChild *milter_manager_egg_hatch(MilterManagerEgg *e)
{
    int i = which(e) == 1;
    VP_ASSERT(which(e) == i && enabled[i] && !n_hatch[i], "one enabled is made once");
    VP_ASSERT(order <= i, "in the order configured");
    order = i;
    n_hatch[i]++;
    return hatches[i] ? (MilterManagerChild *)&child_[i] : NULL;
}
void milter_manager_children_add_child(MilterManagerChildren *c, MilterManagerChild *k)
{
    int i = (gpointer)k == (gpointer)&child_[1];
    VP_ASSERT(c == KIDS && (gpointer)k == (gpointer)&child_[i] && n_hatch[i] && order == i && !child_unref[i], "the milter made is one of this session");
    n_add[i]++;
}
void milter_manager_egg_attach_applicable_conditions(MilterManagerEgg *e, MilterManagerChild *k, MilterManagerChildren *c, MilterClientContext *x)
{
    int i = (gpointer)k == (gpointer)&child_[1];
    VP_ASSERT(c == KIDS && x == CTX && (gpointer)k == (gpointer)&child_[i] && which(e) == i && n_hatch[i] && !child_unref[i], "its conditions, to this milter of this session");
    n_attach[i]++;
}
static void treated(int i)
{
    VP_ASSERT(n_hatch[i] == enabled[i], "one not enabled takes no part, one enabled does");
    VP_ASSERT(n_add[i] == (enabled[i] && hatches[i]) && n_attach[i] == n_add[i] && child_unref[i] == n_add[i], "a milter that can be made is added once, with its conditions");
}
static int found_at = -1;
#ifdef VP_A
#define FROM(h) if (*phase == 0) { VP_ASSERT(*node == (h), "from the first one on"); (*phase)++; if (!*node) (*phase)++; return; }
#define NEXT do { VP_ASSERT(*node == L_[0].next, "one after the other"); \
    if (L_[0].next) { VP_REACH("another one"); vp_assume(0); } VP_REACH("last one"); (*phase)++; } while (0)
void vp_cut_search(int *phase, GList **node)
{
    FROM(had_)
    if (*phase == 1) { VP_ASSERT(!matches[0] && n_del == 0, "the one of that name is not passed over"); NEXT; }
}
void vp_cut_setup(int *phase, GList **node)
{
    FROM(had_)
    if (*phase == 1) { treated(0); NEXT; }
}
#endif
int vp_main(void)
{
    int i, n;
    vp_witness();
    vp_set_private(CONF, milter_manager_configuration_get_type(), P);
    eggs = 1;
#ifndef CASE_setup
    eggs = vp_bool("eggs");
#endif
    for (i = 0; i < 2; i++) {
        L_[i].data = &item_[i]; L_[i].next = L_[i].prev = NULL;
        matches[i] = vp_bool("matches"); enabled[i] = vp_bool("enabled"); hatches[i] = vp_bool("hatches");
    }
    if (vp_bool("more")) { L_[0].next = &L_[1]; L_[1].prev = &L_[0]; }
    had_ = vp_bool("some") ? L_ : NULL;
    n = had_ ? 1 + (had_->next != NULL) : 0;
#ifdef CASE_add
    some_ = vp_bool("has"); had_ = some_ ? &seq_ : NULL;
#endif
    if (eggs) P->eggs = had_; else P->applicable_conditions = had_;
#define LIST (eggs ? P->eggs : P->applicable_conditions)
#if defined(CASE_add)
    if (eggs) milter_manager_configuration_add_egg(CONF, (MilterManagerEgg *)&item_[2]);
    else milter_manager_configuration_add_applicable_condition(CONF, (MilterManagerApplicableCondition *)&item_[2]);
    VP_REACH("added");
    VP_ASSERT(n_app == 1 && last_ == (gpointer)&item_[2] && refs_[2] == 1 && unrefs_[2] == 0 && LIST == &seq_, "one added is the last one, and kept");
    VP_ASSERT((eggs ? milter_manager_configuration_get_eggs(CONF) : milter_manager_configuration_get_applicable_conditions(CONF)) == &seq_, "and known");
#elif defined(CASE_find)
    {
        gpointer r = eggs ? (gpointer)milter_manager_configuration_find_egg(CONF, &wanted_) : (gpointer)milter_manager_configuration_find_applicable_condition(CONF, &wanted_);
        found_at = which(r);
        VP_REACH("searched");
        VP_ASSERT(!r || (had_ && found_at >= 0 && found_at < n && matches[found_at]), "the one found has that name");
#ifdef VP_A
        VP_ASSERT(r || !had_ || (!matches[0] && !had_->next), "one of that name is found");   /* with another one, the way ends at the head of the loop */
#else
        VP_ASSERT(r || !((n > 0 && matches[0]) || (n > 1 && matches[1])), "one of that name is found");
        VP_ASSERT(found_at != 1 || !matches[0], "the first one");
#endif
        VP_ASSERT(LIST == had_ && n_del + list_freed == 0 && unrefs_[0] + unrefs_[1] == 0, "looking changes nothing");
    }
#elif defined(CASE_remove)
    {
        if (eggs) milter_manager_configuration_remove_egg_by_name(CONF, &wanted_);
        else milter_manager_configuration_remove_applicable_condition_by_name(CONF, &wanted_);
        VP_REACH("removed");
        if (n_del) {
            VP_ASSERT((deleted == &L_[0] && matches[0]) || (n > 1 && deleted == &L_[1] && matches[1]), "the one removed has that name");
            VP_ASSERT(LIST == &seq_, "the others stay");
            for (i = 0; i < 2; i++) VP_ASSERT(unrefs_[i] == (deleted == &L_[i]), "it alone is let go of");
            VP_REACH("one");
        } else {
            VP_ASSERT(LIST == had_ && unrefs_[0] + unrefs_[1] == 0, "else nothing changes");
#ifdef VP_A
            VP_ASSERT(!had_ || (!matches[0] && !had_->next), "one of that name is removed");      /* as above */
#else
            VP_ASSERT(!((n > 0 && matches[0]) || (n > 1 && matches[1])), "one of that name is removed");
#endif
        }
    }
#elif defined(CASE_clear)
    if (eggs) milter_manager_configuration_clear_eggs(CONF);
    else milter_manager_configuration_clear_applicable_conditions(CONF);
    VP_REACH("cleared");
    VP_ASSERT(LIST == NULL && list_freed == (had_ != NULL) && unrefs_[0] == (n > 0) && unrefs_[1] == (n > 1), "none is left, each is let go of once");
#elif defined(CASE_chunk_size)
    {
        guint size = vp_u32("size"), got;
        milter_manager_configuration_set_chunk_size(CONF, size);
        got = milter_manager_configuration_get_chunk_size(CONF);
        VP_REACH("set");
        VP_ASSERT(got >= 1, "a body goes on with every part");
        VP_ASSERT(got <= MILTER_CHUNK_SIZE, "no part is larger than the protocol allows");
        if (size >= 1 && size <= MILTER_CHUNK_SIZE) VP_ASSERT(got == size, "the size is the one set");
    }
#elif defined(CASE_setup)
    milter_manager_configuration_setup_children(CONF, KIDS, CTX);
    VP_REACH("set up");
#ifdef VP_A
    VP_ASSERT(n < 2, "none is left out");   /* with another one, the way ends at the head of the loop */
#endif
    if (n > 0) treated(0);
#ifndef VP_A
    if (n > 1) treated(1);
#endif
    VP_ASSERT(LIST == had_, "what is configured stays");
#else
#error no case
#endif
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
