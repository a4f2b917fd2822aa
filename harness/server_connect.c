/* The contract of connecting to a milter (milter-server-context.c): it is
 * connected to at its address without waiting; that it is reached, cannot be
 * reached or is not reached in time is reported once, and nothing of a failed
 * attempt stays. */
#include "vp.h"
#include <string.h>
#include <sys/socket.h>
#include <errno.h>
#define VP_OWN_REFCOUNT 1
static int my_socket(int d, int t, int p);
static int my_connect(int fd, const struct sockaddr *a, socklen_t n);
static int my_getsockopt(int fd, int l, int o, void *v, socklen_t *n);
static GIOChannel *my_channel_new(int fd);
static void my_channel_close(GIOChannel *c, gboolean on);
static GIOStatus my_channel_encoding(GIOChannel *c, const gchar *e, GError **err);
static GIOStatus my_channel_flags(GIOChannel *c, GIOFlags f, GError **err);
static void my_channel_unref(GIOChannel *c);
static int my_channel_fd(GIOChannel *c);
#include <glib-object.h>
#include <milter/core.h>
#include <milter/server.h>
#define socket(d, t, p) my_socket(d, t, p)
#define connect(f, a, n) my_connect(f, a, n)
#define getsockopt(f, l, o, v, n) my_getsockopt(f, l, o, v, n)
#define g_io_channel_unix_new my_channel_new
#define g_io_channel_set_close_on_unref my_channel_close
#define g_io_channel_set_encoding my_channel_encoding
#define g_io_channel_set_flags my_channel_flags
#define g_io_channel_unref my_channel_unref
#define g_io_channel_unix_get_fd my_channel_fd
#include "milter/server/milter-server-context.c"
#undef socket
#undef connect
#undef getsockopt
#undef g_io_channel_unix_new
#undef g_io_channel_set_close_on_unref
#undef g_io_channel_set_encoding
#undef g_io_channel_set_flags
#undef g_io_channel_unref
#undef g_io_channel_unix_get_fd

static struct { GObject o[8]; } c_obj;
#define CTX ((MilterServerContext *)&c_obj)
static MilterServerContextPrivate priv_;
#define P (&priv_)
static struct sockaddr_storage addr_;
static gchar channel_, loop_, reader_, writer_;
#define CH ((GIOChannel *)&channel_)
#define LOOP ((MilterEventLoop *)&loop_)
#define FD 17
static int n_socket, n_channel, n_close, n_unref, nonblock, binary, n_connect;
static int fail_socket, fail_encoding, fail_flags, connect_errno, sock_result, sock_errno;
static guint live_timer, live_watch, last_id = 40;
static int n_error, error_code, n_ready, n_timeout, n_reader, n_writer, n_start, fail_start, ref_reader = 1, ref_writer = 1, n_shutdown;

#ifdef VP_N
static void fail(GError **e) { *e = g_error_new_literal(1, 1, "e"); }
#else
static GError err_store;
static void fail(GError **e) { *e = &err_store; }
#endif
static int my_socket(int d, int t, int p)
{ VP_ASSERT(d == P->domain && t == SOCK_STREAM && p == 0, "a stream of the address's kind"); n_socket++; if (fail_socket) { errno = EMFILE; return -1; } return FD; }
static int my_connect(int fd, const struct sockaddr *a, socklen_t n)
{
    VP_ASSERT(fd == FD && a == P->address && n == P->address_size, "connected to at its address");
    VP_ASSERT(nonblock, "without waiting");
    n_connect++;
    if (!connect_errno) return 0;
    errno = connect_errno;
    return -1;
}
static int my_getsockopt(int fd, int l, int o, void *v, socklen_t *n)
{
    VP_ASSERT(fd == FD && l == SOL_SOCKET && o == SO_ERROR && *n == sizeof(int), "what has become of it");
    if (sock_result) { errno = ENOTCONN; return -1; }
    *(int *)v = sock_errno;
    return 0;
}
static GIOChannel *my_channel_new(int fd) { VP_ASSERT(fd == FD, "the socket"); n_channel++; return CH; }
static void my_channel_close(GIOChannel *c, gboolean on) { VP_ASSERT(c == CH, "the channel"); if (on) n_close++; }
static GIOStatus my_channel_encoding(GIOChannel *c, const gchar *e, GError **err)
{ VP_ASSERT(c == CH && !e, "bytes go as they are"); binary = 1; if (fail_encoding) { fail(err); return G_IO_STATUS_ERROR; } return G_IO_STATUS_NORMAL; }
static GIOStatus my_channel_flags(GIOChannel *c, GIOFlags f, GError **err)
{ VP_ASSERT(c == CH, "the channel"); if (fail_flags) { fail(err); return G_IO_STATUS_ERROR; } nonblock = !!(f & G_IO_FLAG_NONBLOCK); return G_IO_STATUS_NORMAL; }
static void my_channel_unref(GIOChannel *c) { VP_ASSERT(c == CH && n_unref == 0, "the channel is let go of once"); n_unref++; }
static int my_channel_fd(GIOChannel *c) { VP_ASSERT(c == CH && n_unref == 0, "of the channel"); return FD; }

MilterEventLoop *milter_agent_get_event_loop(MilterAgent *a) { VP_ASSERT((gpointer)a == (gpointer)CTX, "this milter"); return LOOP; }
guint milter_agent_get_tag(MilterAgent *a) { return 1; }
guint milter_event_loop_watch_io(MilterEventLoop *l, GIOChannel *c, GIOCondition cond, GIOFunc f, gpointer d)
{
    VP_ASSERT(l == LOOP && c == CH && f == connect_watch_func && d == (gpointer)CTX && !live_watch, "the connection is awaited");
    VP_ASSERT((cond & (G_IO_OUT | G_IO_ERR | G_IO_HUP)) == (G_IO_OUT | G_IO_ERR | G_IO_HUP), "or its failure");
    return live_watch = ++last_id;
}
guint milter_event_loop_add_timeout(MilterEventLoop *l, gdouble s, GSourceFunc f, gpointer d)
{
    VP_ASSERT(l == LOOP && f == cb_connection_timeout && d == (gpointer)CTX && s == P->connection_timeout && !live_timer, "for the time configured");
    return live_timer = ++last_id;
}
gboolean milter_event_loop_remove(MilterEventLoop *l, guint id)
{
    VP_ASSERT(l == LOOP && id && (id == live_timer || id == live_watch), "what is awaited is no longer");
    if (id == live_timer) live_timer = 0; else live_watch = 0;
    return TRUE;
}
MilterReader *milter_reader_io_channel_new(GIOChannel *c) { VP_ASSERT(c == CH && n_unref == 0, "of the channel"); return (MilterReader *)&reader_; }
MilterWriter *milter_writer_io_channel_new(GIOChannel *c) { VP_ASSERT(c == CH && n_unref == 0, "of the channel"); return (MilterWriter *)&writer_; }
void milter_agent_set_reader(MilterAgent *a, MilterReader *r) { VP_ASSERT((gpointer)r == (gpointer)&reader_ && ref_reader > 0, "its reader"); n_reader++; }
void milter_agent_set_writer(MilterAgent *a, MilterWriter *w) { VP_ASSERT((gpointer)w == (gpointer)&writer_ && ref_writer > 0, "its writer"); n_writer++; }
gboolean milter_agent_start(MilterAgent *a, GError **e)
{ VP_ASSERT((gpointer)a == (gpointer)CTX && n_reader == 1 && n_writer == 1, "it starts with both"); n_start++; if (fail_start) { fail(e); return FALSE; } return TRUE; }
void milter_agent_shutdown(MilterAgent *a) { n_shutdown++; }
gpointer (g_object_ref)(gpointer o) { return o; }
void g_object_unref(gpointer o) { if (o == (gpointer)&reader_) ref_reader--; else if (o == (gpointer)&writer_) ref_writer--; }
#define IDLE VP_ASSERT(!live_timer && !live_watch && !P->timeout_id && !P->connect_watch_id, "nothing is awaited any more when it is reported")
void milter_error_emittable_emit(MilterErrorEmittable *e, GError *err)
{ VP_ASSERT((gpointer)e == (gpointer)CTX && err, "this milter"); IDLE; n_error++; error_code = err->code; }
void milter_utils_set_error_with_sub_error(GError **e, GQuark d, gint code, GError *sub, const gchar *f, ...)
{ VP_ASSERT(sub, "there is a cause"); g_set_error(e, d, code, "x"); }
void vp_on_emit(VpEmit *e)
{
    VP_ASSERT(e->instance == (gpointer)CTX, "this milter's signal");
    if (vp_is(e, "ready")) { n_ready++; IDLE; }
    else { VP_ASSERT(vp_is(e, "connection-timeout"), "no other signal"); n_timeout++; }
}
static int parse_ok; static const char *spec_;
gboolean milter_connection_parse_spec(const gchar *s, gint *d, struct sockaddr **a, socklen_t *n, GError **e)
{
    VP_ASSERT(s == spec_, "the specification given");
    if (!parse_ok) { fail(e); return FALSE; }
    *d = AF_INET; *a = (struct sockaddr *)&addr_; *n = 16;
    return TRUE;
}
gchar *milter_connection_address_to_spec(const struct sockaddr *a) { return g_strdup("x"); }
#ifdef VP_CBMC
GTimer *g_timer_new(void) { return NULL; }
void g_timer_start(GTimer *t) { }
void g_timer_stop(GTimer *t) { }
void g_timer_continue(GTimer *t) { }
void g_timer_reset(GTimer *t) { }
gdouble g_timer_elapsed(GTimer *t, gulong *u) { return 0; }
#endif

int vp_main(void)
{
    static MilterServerContextClass klass;
    GError *error = NULL;
    gboolean r;
    vp_witness();
    vp_set_private(CTX, milter_server_context_get_type(), P);
    vp_class_init(milter_server_context_get_type(), &klass);
    P->connection_timeout = 1; P->writing_timeout = 2; P->reading_timeout = 3; P->end_of_message_timeout = 4;
    P->domain = (int)vp_u32("domain"); P->address_size = vp_u32("size");
    fail_socket = vp_bool("fail_socket"); fail_encoding = vp_bool("fail_encoding"); fail_flags = vp_bool("fail_flags"); fail_start = vp_bool("fail_start");
    connect_errno = vp_below("errno", 3); connect_errno = connect_errno == 0 ? 0 : connect_errno == 1 ? EINPROGRESS : ECONNREFUSED;
    sock_result = vp_bool("sock_result"); sock_errno = vp_bool("bad") ? (int)vp_u32("sock_errno") : 0;
#if defined(CASE_start)
    {
        int has = vp_bool("address"), bad;
        P->address = has ? (struct sockaddr *)&addr_ : NULL;
        if (vp_bool("timer")) P->timeout_id = live_timer = ++last_id;
        r = milter_server_context_establish_connection(CTX, &error);
        VP_REACH("started");
        bad = !has || fail_socket || fail_encoding || fail_flags || connect_errno == ECONNREFUSED;
        VP_ASSERT(r == !bad && (error != NULL) == bad, "an attempt that fails at once says so");
        if (bad) {
            VP_ASSERT(error->code == (has ? MILTER_SERVER_CONTEXT_ERROR_CONNECTION_FAILURE : MILTER_SERVER_CONTEXT_ERROR_NO_SPEC), "and why");
            VP_ASSERT(n_unref == n_channel && P->client_channel == NULL && !live_watch && !P->connect_watch_id, "and nothing of it stays");
            if (n_connect) VP_ASSERT(!live_timer && !P->timeout_id, "nothing is awaited");
        } else {
            VP_ASSERT(n_socket == 1 && n_channel == 1 && n_close == 1 && binary && n_connect == 1 && n_unref == 0 && P->client_channel == CH, "else there is one connection");
            VP_ASSERT(live_watch && P->connect_watch_id == live_watch && live_timer && P->timeout_id == live_timer, "which is awaited for its time");
        }
        VP_ASSERT(n_error + n_ready + n_timeout + n_start == 0, "nothing is reported yet");
    }
#elif defined(CASE_result)
    {
        int bad = sock_result || sock_errno;
        P->address = (struct sockaddr *)&addr_; P->client_channel = CH;
        P->connect_watch_id = live_watch = ++last_id; P->timeout_id = live_timer = ++last_id;
        P->spec = "spec";
        r = connect_watch_func(CH, vp_u32("condition"), CTX);
        VP_REACH("told");
        VP_ASSERT(!r && !live_watch && !live_timer && !P->timeout_id && !P->connect_watch_id, "it is no longer awaited");
        VP_ASSERT(n_start == !bad && n_reader == n_start && n_writer == n_start, "a milter reached is read from and written to");
        VP_ASSERT(n_ready == (!bad && !fail_start) && n_error == !n_ready && n_timeout == 0, "that it was reached or not is reported once");
        VP_ASSERT(n_unref == !n_ready && P->client_channel == (n_ready ? CH : NULL), "a connection that failed is closed");
        if (bad) VP_ASSERT(error_code == MILTER_SERVER_CONTEXT_ERROR_CONNECTION_FAILURE, "as what it is");
        if (n_start) VP_ASSERT(ref_reader == 0 && ref_writer == 0, "reader and writer are its own");
    }
#elif defined(CASE_too_slow)
    P->address = (struct sockaddr *)&addr_; P->client_channel = CH;
    r = cb_connection_timeout(CTX);
    VP_REACH("told");
    VP_ASSERT(!r && n_timeout == 1 && n_error + n_ready == 0, "that it was not reached in time is reported once");
#elif defined(CASE_spec)
    {
        static char text[2] = "s";
        spec_ = text; parse_ok = vp_bool("parse");
        P->address = vp_bool("had") ? g_malloc(16) : NULL; P->spec = vp_bool("hadspec") ? g_strdup("a") : NULL;
        r = milter_server_context_set_connection_spec(CTX, text, &error);
        VP_REACH("set");
        VP_ASSERT(r == parse_ok && (error != NULL) == !r, "a specification that cannot be read is refused");
        VP_ASSERT(P->address == (r ? (struct sockaddr *)&addr_ : NULL), "the address is that of the specification, not of the one before");
        if (r) VP_ASSERT(P->domain == AF_INET && P->address_size == 16, "of its kind and size");
    }
#else
#error no case
#endif
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
