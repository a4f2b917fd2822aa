/* The contract of the properties a milter of a session is made with
 * (milter-manager-child.c, milter-server-context.c) and is configured with
 * (milter-manager-egg.c): a property is kept under the name it is given by and
 * read back as it was given; no other one changes.  The same for the settings
 * of the manager (milter-manager-configuration.c). */
#include "vp.h"
#include <string.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <unistd.h>
#include <pwd.h>
#include <errno.h>
#include <glib-object.h>
#include <milter/core.h>
#include <milter/server.h>
#include <milter/manager.h>
static gchar *my_strdup(const gchar *s);
static void my_free(gpointer p);
static GParamSpec *my_spec(const gchar *n);
static void my_install(guint id, GParamSpec *s);
static const gchar *v_string(const GValue *v);
static gint v_int(const GValue *v);
static gdouble v_double(const GValue *v);
static void w_string(GValue *v, const gchar *s);
static void w_int(GValue *v, gint i);
static void w_double(GValue *v, gdouble d);
#undef g_strdup
#undef g_free
#define g_strdup my_strdup
#define g_free my_free
#define g_param_spec_string(n, ...) my_spec(n)
#define g_param_spec_boolean(n, ...) my_spec(n)
#define g_param_spec_enum(n, ...) my_spec(n)
#define g_param_spec_uint(n, ...) my_spec(n)
#define g_param_spec_double(n, ...) my_spec(n)
#define g_param_spec_object(n, ...) my_spec(n)
#define g_object_class_install_property(c, i, s) my_install(i, s)
#define g_value_get_string v_string
#define g_value_dup_string(v) my_strdup(v_string(v))
#define g_value_get_boolean v_int
#define g_value_get_enum v_int
#define g_value_get_uint v_int
#define g_value_get_double v_double
#define g_value_set_string w_string
#define g_value_set_boolean w_int
#define g_value_set_enum w_int
#define g_value_set_uint w_int
#define g_value_set_double w_double
#ifdef CASE_child
#include "milter/manager/milter-manager-child.c"
#define TYPE milter_manager_child_get_type()
static MilterManagerChildPrivate p_; static MilterManagerChildClass klass_;
#elif defined(CASE_server)
#include "milter/server/milter-server-context.c"
#define TYPE milter_server_context_get_type()
static MilterServerContextPrivate p_; static MilterServerContextClass klass_;
#elif defined(CASE_egg)
#include "milter/manager/milter-manager-egg.c"
#define TYPE milter_manager_egg_get_type()
static MilterManagerEggPrivate p_; static MilterManagerEggClass klass_;
#elif defined(CASE_condition)
#include "milter/manager/milter-manager-applicable-condition.c"
#define TYPE milter_manager_applicable_condition_get_type()
static MilterManagerApplicableConditionPrivate p_, q_; static MilterManagerApplicableConditionClass klass_;
#define COND ((MilterManagerApplicableCondition *)&obj_)
#define OTHER ((MilterManagerApplicableCondition *)&other_)
static int n_attach; static gpointer a_[3];
#elif defined(CASE_configuration)
/* what the build configures */
#ifndef CUSTOM_CONFIG_FILE_NAME
#define CUSTOM_CONFIG_FILE_NAME "x"
#endif
#ifndef CONFIG_FILE_NAME
#define CONFIG_FILE_NAME "x"
#endif
#ifndef MILTER_MANAGER_DEFAULT_CONNECTION_SPEC
#define MILTER_MANAGER_DEFAULT_CONNECTION_SPEC "x"
#endif
#ifndef MILTER_MANAGER_PACKAGE_PLATFORM
#define MILTER_MANAGER_PACKAGE_PLATFORM "x"
#endif
#ifndef MILTER_MANAGER_PACKAGE_OPTIONS
#define MILTER_MANAGER_PACKAGE_OPTIONS "x"
#endif
#ifndef MILTER_MANAGER_DEFAULT_EFFECTIVE_USER
#define MILTER_MANAGER_DEFAULT_EFFECTIVE_USER "x"
#endif
#ifndef MILTER_MANAGER_DEFAULT_EFFECTIVE_GROUP
#define MILTER_MANAGER_DEFAULT_EFFECTIVE_GROUP "x"
#endif
#ifndef MILTER_MANAGER_DEFAULT_PID_FILE
#define MILTER_MANAGER_DEFAULT_PID_FILE "x"
#endif
#ifndef MILTER_MANAGER_DEFAULT_SOCKET_GROUP
#define MILTER_MANAGER_DEFAULT_SOCKET_GROUP "x"
#endif
#ifndef PREFIX
#define PREFIX "x"
#endif
#ifndef CONFIG_DIR
#define CONFIG_DIR "x"
#endif
#ifndef CONFIGURATION_MODULE_DIR
#define CONFIGURATION_MODULE_DIR "x"
#endif
#ifndef CONFIGURATION_MODULE_SUFFIX
#define CONFIGURATION_MODULE_SUFFIX "x"
#endif
#include "milter/manager/milter-manager-configuration.c"
#define TYPE milter_manager_configuration_get_type()
static MilterManagerConfigurationPrivate p_; static MilterManagerConfigurationClass klass_;
#define CONF ((MilterManagerConfiguration *)&obj_)
#else
#error no case
#endif
#undef g_strdup
#undef g_free

enum { S, I, D };
static const struct { const gchar *name; int kind; gpointer at; } F[] = {
#ifdef CASE_child
    { "user-name", S, &p_.user_name }, { "command", S, &p_.command }, { "command-options", S, &p_.command_options },
    { "working-directory", S, &p_.working_directory }, { "search-path", I, &p_.search_path },
    { "fallback-status", I, &p_.fallback_status }, { "evaluation-mode", I, &p_.evaluation_mode },
#elif defined(CASE_server)
    { "name", S, &p_.name }, { "connection-timeout", D, &p_.connection_timeout }, { "writing-timeout", D, &p_.writing_timeout },
    { "reading-timeout", D, &p_.reading_timeout }, { "end-of-message-timeout", D, &p_.end_of_message_timeout },
    { "status", I, &p_.status },
#elif defined(CASE_condition)
    { "name", S, &p_.name }, { "description", S, &p_.description }, { "data", S, &p_.data },
#elif defined(CASE_configuration)
    { "privilege-mode", I, &p_.privilege_mode }, { "controller-connection-spec", S, &p_.controller_connection_spec }, { "manager-connection-spec", S, &p_.manager_connection_spec },
    { "fallback-status", I, &p_.fallback_status }, { "fallback-status-at-disconnect", I, &p_.fallback_status_at_disconnect }, { "package-platform", S, &p_.package_platform },
    { "package-options", S, &p_.package_options }, { "effective-user", S, &p_.effective_user }, { "effective-group", S, &p_.effective_group },
    { "manager-unix-socket-mode", I, &p_.manager_unix_socket_mode }, { "controller-unix-socket-mode", I, &p_.controller_unix_socket_mode }, { "manager-unix-socket-group", S, &p_.manager_unix_socket_group },
    { "controller-unix-socket-group", S, &p_.controller_unix_socket_group }, { "remove-manager-unix-socket-on-close", I, &p_.remove_manager_unix_socket_on_close }, { "remove-controller-unix-socket-on-close", I, &p_.remove_controller_unix_socket_on_close },
    { "remove-manager-unix-socket-on-create", I, &p_.remove_manager_unix_socket_on_create }, { "remove-controller-unix-socket-on-create", I, &p_.remove_controller_unix_socket_on_create }, { "daemon", I, &p_.daemon },
    { "pid-file", S, &p_.pid_file }, { "maintenance-interval", I, &p_.maintenance_interval }, { "suspend-time-on-unacceptable", I, &p_.suspend_time_on_unacceptable },
    { "max-connections", I, &p_.max_connections }, { "max-file-descriptors", I, &p_.max_file_descriptors }, { "custom-configuration-directory", S, &p_.custom_configuration_directory },
    { "connection-check-interval", I, &p_.connection_check_interval }, { "event-loop-backend", I, &p_.event_loop_backend }, { "n-workers", I, &p_.n_workers },
    { "default-packet-buffer-size", I, &p_.default_packet_buffer_size }, { "use-syslog", I, &p_.use_syslog }, { "syslog-facility", S, &p_.syslog_facility },
    { "max-pending-finished-sessions", I, &p_.max_pending_finished_sessions },
#else
    { "name", S, &p_.name }, { "description", S, &p_.description }, { "user-name", S, &p_.user_name }, { "command", S, &p_.command },
    { "command-options", S, &p_.command_options }, { "enabled", I, &p_.enabled }, { "connection-timeout", D, &p_.connection_timeout },
    { "writing-timeout", D, &p_.writing_timeout }, { "reading-timeout", D, &p_.reading_timeout },
    { "end-of-message-timeout", D, &p_.end_of_message_timeout }, { "fallback-status", I, &p_.fallback_status },
    { "evaluation-mode", I, &p_.evaluation_mode },
#endif
};
#define NF ((int)(sizeof(F) / sizeof(F[0])))

#ifdef CASE_configuration
#define MANY 40
#else
#define MANY 20
#endif
static struct { GObject o[8]; } obj_, other_;
static gchar own_t[MANY], arg_t, cp_t[4]; static const gchar *cp_of[4]; static int n_cp, own_freed[MANY], cp_freed[4];
static GParamSpec spec_[MANY]; static const gchar *spec_name[MANY]; static guint spec_id[MANY]; static int n_spec;
static GParamSpec *my_spec(const gchar *n)
{
    VP_ASSERT(n_spec < MANY, "specifications");
    vp_assume(n_spec < MANY);
    spec_name[n_spec] = n;
    return &spec_[n_spec++];
}
static void my_install(guint id, GParamSpec *s)
{ int i; for (i = 0; i < MANY; i++) if (s == &spec_[i]) { VP_ASSERT(i < n_spec && !spec_id[i], "installed once"); spec_id[i] = id; } }
static gchar *my_strdup(const gchar *s)
{ if (!s) return NULL; VP_ASSERT(s == &arg_t && n_cp < 4, "what is given is copied"); vp_assume(n_cp < 4); cp_of[n_cp] = s; return &cp_t[n_cp++]; }
static void my_free(gpointer p)
{
    int i;
    if (!p) return;
    for (i = 0; i < MANY; i++) if (p == (gpointer)&own_t[i]) { VP_ASSERT(!own_freed[i], "what was kept is freed once"); own_freed[i] = 1; return; }
    for (i = 0; i < 4; i++) if (p == (gpointer)&cp_t[i]) { cp_freed[i] = 1; return; }
    VP_ASSERT(0, "only what was kept is freed");
}
static GValue in_, out_; static const gchar *in_s, *out_s; static gint in_i, out_i; static gdouble in_d, out_d; static int n_out;
static const gchar *v_string(const GValue *v) { VP_ASSERT(v == &in_, "the value given"); return in_s; }
static gint v_int(const GValue *v) { VP_ASSERT(v == &in_, "the value given"); return in_i; }
static gdouble v_double(const GValue *v) { VP_ASSERT(v == &in_, "the value given"); return in_d; }
static void w_string(GValue *v, const gchar *s) { VP_ASSERT(v == &out_, "the value asked for"); out_s = s; n_out++; }
static void w_int(GValue *v, gint i) { VP_ASSERT(v == &out_, "the value asked for"); out_i = i; n_out++; }
static void w_double(GValue *v, gdouble d) { VP_ASSERT(v == &out_, "the value asked for"); out_d = d; n_out++; }
void vp_on_emit(VpEmit *e)
{
#ifdef CASE_condition
    VP_ASSERT(e->instance == (gpointer)COND && vp_is(e, "attach-to") && e->a[0].p == a_[0] && e->a[1].p == a_[1] && e->a[2].p == a_[2], "the condition is attached to what is given");
    n_attach++;
#endif
}

int vp_main(void)
{
    int i, k, had[MANY], at = -1; gint was_i[MANY]; gdouble was_d[MANY];
    vp_witness();
    vp_set_private(&obj_, TYPE, &p_);
    vp_class_init(TYPE, &klass_);
#ifdef CASE_condition
    if (vp_bool("attach")) {
        static gchar x[3];
        for (i = 0; i < 3; i++) a_[i] = &x[i];
        milter_manager_applicable_condition_attach_to(COND, a_[0], a_[1], a_[2]);
        VP_ASSERT(n_attach == 1, "once");
        VP_REACH("attached");
        return 0;
    }
    if (vp_bool("merge")) {
        vp_set_private(&other_, TYPE, &q_);
        p_.name = vp_bool("had") ? &own_t[0] : NULL; p_.description = vp_bool("had") ? &own_t[1] : NULL; p_.data = vp_bool("had") ? &own_t[2] : NULL;
        q_.name = own_t + 8; q_.description = vp_bool("description") ? &arg_t : NULL; q_.data = vp_bool("data") ? &arg_t : NULL;
        had[1] = p_.description != NULL; had[2] = p_.data != NULL;
        { gchar *n = p_.name, *d = p_.description, *t = p_.data;
          milter_manager_applicable_condition_merge(COND, OTHER);
          VP_ASSERT(p_.name == n && !own_freed[0], "a condition keeps its name");
          if (q_.description) VP_ASSERT(p_.description >= cp_t && p_.description < cp_t + n_cp && own_freed[1] == had[1], "a setting is that of the other, if it has it");
          else VP_ASSERT(p_.description == d && !own_freed[1], "a setting is that of the other, if it has it");
          if (q_.data) VP_ASSERT(p_.data >= cp_t && p_.data < cp_t + n_cp && p_.data != p_.description && own_freed[2] == had[2], "a setting is that of the other, if it has it");
          else VP_ASSERT(p_.data == t && !own_freed[2], "a setting is that of the other, if it has it"); }
        VP_REACH("merged");
        return 0;
    }
#endif
    k = vp_below("which", NF);
    for (i = 0; i < NF; i++) {
        had[i] = vp_bool("had");
        was_i[i] = vp_bool("old"); was_d[i] = vp_u8("old");
        if (F[i].kind == S) *(gchar **)F[i].at = had[i] ? &own_t[i] : NULL;
        else if (F[i].kind == I) *(gint *)F[i].at = was_i[i];
        else *(gdouble *)F[i].at = was_d[i];
    }
    for (i = 0; i < MANY; i++) if (i < n_spec && !strcmp(spec_name[i], F[k].name)) { VP_ASSERT(at < 0, "one property of that name"); at = i; }
    VP_ASSERT(at >= 0, "there is a property of that name");
    vp_assume(at >= 0);
    in_s = vp_bool("text") ? &arg_t : NULL; in_i = vp_bool("value"); in_d = vp_u32("seconds");
    set_property((GObject *)&obj_, spec_id[at], &in_, &spec_[at]);
    VP_REACH("set");
    for (i = 0; i < NF; i++) {
        if (F[i].kind == S) {
            gchar *p = *(gchar **)F[i].at;
            if (i == k) {
                VP_ASSERT(in_s ? (n_cp == 1 && p == &cp_t[0] && !cp_freed[0]) : !p, "a property is what was given");
                VP_ASSERT(own_freed[i] == had[i], "the one before is let go of");
            } else VP_ASSERT(p == (had[i] ? &own_t[i] : NULL) && !own_freed[i], "no other property changes");
        } else if (F[i].kind == I) {
            if (i == k) VP_ASSERT(*(gint *)F[i].at == in_i, "a property is what was given");
            else VP_ASSERT(*(gint *)F[i].at == was_i[i], "no other property changes");
        } else {
            if (i == k) VP_ASSERT(*(gdouble *)F[i].at == in_d, "a property is what was given");
            else VP_ASSERT(*(gdouble *)F[i].at == was_d[i], "no other property changes");
        }
    }
    get_property((GObject *)&obj_, spec_id[at], &out_, &spec_[at]);
    VP_ASSERT(n_out == 1, "a property can be read");
    if (F[k].kind == S) VP_ASSERT(out_s == *(gchar **)F[k].at, "it is read as it is");
    else if (F[k].kind == I) VP_ASSERT(out_i == *(gint *)F[k].at, "it is read as it is");
    else VP_ASSERT(out_d == *(gdouble *)F[k].at, "it is read as it is");
#ifdef CASE_condition
    VP_ASSERT(milter_manager_applicable_condition_get_name(COND) == p_.name && milter_manager_applicable_condition_get_description(COND) == p_.description &&
              milter_manager_applicable_condition_get_data(COND) == p_.data, "it is read as it is");
#endif
#ifdef CASE_configuration
    VP_ASSERT(milter_manager_configuration_is_privilege_mode(CONF) == p_.privilege_mode &&
              milter_manager_configuration_get_controller_connection_spec(CONF) == p_.controller_connection_spec &&
              milter_manager_configuration_get_manager_connection_spec(CONF) == p_.manager_connection_spec &&
              milter_manager_configuration_get_fallback_status(CONF) == p_.fallback_status &&
              milter_manager_configuration_get_fallback_status_at_disconnect(CONF) == p_.fallback_status_at_disconnect &&
              milter_manager_configuration_get_package_platform(CONF) == p_.package_platform &&
              milter_manager_configuration_get_package_options(CONF) == p_.package_options &&
              milter_manager_configuration_get_effective_user(CONF) == p_.effective_user &&
              milter_manager_configuration_get_effective_group(CONF) == p_.effective_group &&
              milter_manager_configuration_get_manager_unix_socket_mode(CONF) == p_.manager_unix_socket_mode &&
              milter_manager_configuration_get_controller_unix_socket_mode(CONF) == p_.controller_unix_socket_mode &&
              milter_manager_configuration_get_manager_unix_socket_group(CONF) == p_.manager_unix_socket_group &&
              milter_manager_configuration_get_controller_unix_socket_group(CONF) == p_.controller_unix_socket_group &&
              milter_manager_configuration_is_remove_manager_unix_socket_on_close(CONF) == p_.remove_manager_unix_socket_on_close &&
              milter_manager_configuration_is_remove_controller_unix_socket_on_close(CONF) == p_.remove_controller_unix_socket_on_close &&
              milter_manager_configuration_is_remove_manager_unix_socket_on_create(CONF) == p_.remove_manager_unix_socket_on_create &&
              milter_manager_configuration_is_remove_controller_unix_socket_on_create(CONF) == p_.remove_controller_unix_socket_on_create &&
              milter_manager_configuration_is_daemon(CONF) == p_.daemon &&
              milter_manager_configuration_get_pid_file(CONF) == p_.pid_file &&
              milter_manager_configuration_get_maintenance_interval(CONF) == p_.maintenance_interval &&
              milter_manager_configuration_get_suspend_time_on_unacceptable(CONF) == p_.suspend_time_on_unacceptable &&
              milter_manager_configuration_get_max_connections(CONF) == p_.max_connections &&
              milter_manager_configuration_get_max_file_descriptors(CONF) == p_.max_file_descriptors &&
              milter_manager_configuration_get_custom_configuration_directory(CONF) == p_.custom_configuration_directory &&
              milter_manager_configuration_get_connection_check_interval(CONF) == p_.connection_check_interval &&
              milter_manager_configuration_get_event_loop_backend(CONF) == p_.event_loop_backend &&
              milter_manager_configuration_get_n_workers(CONF) == p_.n_workers &&
              milter_manager_configuration_get_default_packet_buffer_size(CONF) == p_.default_packet_buffer_size &&
              milter_manager_configuration_get_use_syslog(CONF) == p_.use_syslog &&
              milter_manager_configuration_get_syslog_facility(CONF) == p_.syslog_facility &&
              milter_manager_configuration_get_max_pending_finished_sessions(CONF) == p_.max_pending_finished_sessions, "it is read as it is");
#endif
#ifdef CASE_child
    VP_ASSERT(milter_manager_child_get_user_name((MilterManagerChild *)&obj_) == p_.user_name, "its user");
    VP_ASSERT(milter_manager_child_get_fallback_status((MilterManagerChild *)&obj_) == p_.fallback_status, "its fallback status");
    VP_ASSERT(milter_manager_child_is_evaluation_mode((MilterManagerChild *)&obj_) == p_.evaluation_mode, "its evaluation mode");
    milter_manager_child_set_evaluation_mode((MilterManagerChild *)&obj_, in_i);
    VP_ASSERT(p_.evaluation_mode == in_i, "its evaluation mode");
#endif
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
