/* The contract of the libmilter API: every event reaches the filter's callback
 * once with what came and its own context, the callback's answer is the answer
 * given; every request of the filter is carried out once with what it gave and
 * succeeds exactly if it was carried out; settings are those the filter made. */
#include "vp.h"
#include <stdlib.h>
#include <string.h>
static gulong my_connect(gpointer o, const gchar *name, GCallback func, gpointer data);
static guint my_disconnect(gpointer o, gpointer func, gpointer data);
static int my_atoi(const char *s);
static gchar **my_strsplit(const gchar *s, const gchar *d, gint max);
static void my_strfreev(gchar **v);
static gchar *my_strdup_printf(const gchar *f, const gchar *a);
static gchar *my_strdup(const gchar *s);
static void my_free(gpointer p);
static gpointer my_memdup(gconstpointer p, guint n);
static const gchar *my_getenv(const gchar *n);
static gpointer my_new(GType t, const gchar *name, gpointer v, gpointer end);
#include <glib-object.h>
#include <glib/gstdio.h>
#include <milter/client.h>
#undef g_signal_connect
#undef g_signal_handlers_disconnect_by_func
#define g_signal_connect(o, n, f, d) my_connect(o, n, f, d)
#define g_signal_handlers_disconnect_by_func(o, f, d) my_disconnect(o, (gpointer)(f), d)
#define atoi my_atoi
#define g_strsplit my_strsplit
#define g_strfreev my_strfreev
#undef g_strdup_printf
#define g_strdup_printf my_strdup_printf
#undef g_strdup
#define g_strdup my_strdup
#undef g_free
#define g_free my_free
#undef g_memdup
#define g_memdup my_memdup
#define g_getenv my_getenv
#define g_object_new my_new
#define g_io_channel_unref my_channel_unref
#ifdef CASE_mlreply
static size_t my_strlen(const char *s);
static char *my_strchr(const char *s, int c);
static GString *my_string_new(const gchar *s);
static GString *my_string_append(GString *o, const gchar *s);
static gchar *my_string_free(GString *o, gboolean all);
#define strlen my_strlen
#define strchr my_strchr
#undef g_string_new
#undef g_string_append
#undef g_string_free
#define g_string_new my_string_new
#define g_string_append my_string_append
#define g_string_free my_string_free
#endif
static void my_channel_unref(GIOChannel *c);
#include "libmilter/libmilter-compatible.c"
#undef g_signal_connect
#undef atoi
#undef g_strsplit
#undef g_strfreev
#undef g_strdup_printf
#undef g_strdup
#undef g_free
#undef g_memdup
#undef g_getenv
#undef g_object_new
#undef g_io_channel_unref
#ifdef CASE_mlreply
#undef strlen
#undef strchr
#undef g_string_new
#undef g_string_append
#undef g_string_free
#endif

GParamSpec *g_param_spec_object(const gchar *n, const gchar *a, const gchar *b, GType t, GParamFlags f) { return NULL; }
void g_object_class_install_property(GObjectClass *c, guint id, GParamSpec *s) { }
#ifdef VP_A
void g_value_set_object(GValue *v, gpointer o) { }
gpointer g_value_get_object(const GValue *v) { return NULL; }
#endif
GType milter_client_event_loop_backend_get_type(void) { return 88; }

static struct { GObject o[8]; } obj_;
#define X ((SmfiContext *)&obj_)
static SmfiContextPrivate priv_;
static struct smfiDesc desc_, given_;
static gchar cc_, option_, requests_, client_, channel_, channel2_, t1_[4], t2_[4], t3_[4], vec_, opt_, logger_, fmt_, dup_, name_[4], unknown_;
#define CC ((MilterClientContext *)&cc_)
#define OPT ((MilterOption *)&option_)
#define REQ ((MilterMacrosRequests *)&requests_)
#define T1 t1_
#define T2 t2_
#define T3 t3_
#define VEC ((gchar **)&vec_)
static int n_call, called_, n_req, req_, ok_, answer_, n_unref, n_free, n_dup, n_new, n_run, n_init, n_quit, n_set, n_listen;
static int n_client_unref, n_channel_unref;
static guint32 index_; static gint num_; static gsize size_;
static gulong a_out, s_out; static guint act_now, step_now; static int act_set, step_set;
static int setsym_, setsym_result; static int setsym_state; static MilterCommand sym_command; static int n_sym;
static GError err_store;
enum { NEGOTIATE = 1, CONNECT_, HELO, FROM, RCPT, DATA, UNKNOWN, HEADER, EOH, BODY, EOM, ABORT, CLOSE };
static int conn; static int want_free;

static int what_of(gpointer f)
{
    return f == (gpointer)cb_negotiate ? NEGOTIATE : f == (gpointer)cb_connect ? CONNECT_ : f == (gpointer)cb_helo ? HELO :
        f == (gpointer)cb_envelope_from ? FROM : f == (gpointer)cb_envelope_recipient ? RCPT : f == (gpointer)cb_data ? DATA :
        f == (gpointer)cb_unknown ? UNKNOWN : f == (gpointer)cb_header ? HEADER : f == (gpointer)cb_end_of_header ? EOH :
        f == (gpointer)cb_body ? BODY : f == (gpointer)cb_end_of_message ? EOM : f == (gpointer)cb_abort ? ABORT :
        f == (gpointer)cb_finished ? CLOSE : 0;
}
static const char *const signal_[] = { "", "negotiate", "connect", "helo", "envelope_from", "envelope_recipient", "data", "unknown",
    "header", "end_of_header", "body", "end_of_message", "abort", "finished" };
static int same(const char *a, const char *b)
{ int i; for (i = 0; i < 40; i++) { char x = a[i] == '-' ? '_' : a[i]; if (x != b[i]) return 0; if (!x) return 1; } return 0; }
static gulong my_connect(gpointer o, const gchar *name, GCallback func, gpointer data)
{
    int w = what_of((gpointer)func);
    if (o == (gpointer)&client_) {
        VP_ASSERT(func == (GCallback)cb_connection_established && same(name, "connection_established"), "each connection gets its context");
        n_listen++; return 1;
    }
    VP_ASSERT(o == (gpointer)CC && data == (gpointer)X && w, "the context listens to its session");
    VP_ASSERT(same(name, signal_[w]), "each event has its handler");
    VP_ASSERT(!(conn & (1 << w)), "once");
    conn |= 1 << w;
    return 1;
}
static guint my_disconnect(gpointer o, gpointer func, gpointer data)
{
    int w = what_of(func);
    VP_ASSERT(o == (gpointer)CC && data == (gpointer)X && w, "the context stops listening to its session");
    conn &= ~(1 << w);
    return 1;
}
/* the filter */
static sfsistat call(int what, SMFICTX *c)
{ VP_ASSERT((gpointer)c == (gpointer)X, "the filter is called with its context"); n_call++; called_ = what; return answer_; }
static sfsistat f_negotiate(SMFICTX *c, unsigned long a, unsigned long s, unsigned long p1, unsigned long p2,
                            unsigned long *ao, unsigned long *so, unsigned long *p1o, unsigned long *p2o)
{
    VP_ASSERT(a == act_now && s == step_now, "the filter is told what is offered");
    VP_ASSERT(*ao == act_now && *so == step_now, "which is what it gets if it changes nothing");
    if (setsym_) setsym_result = smfi_setsymlist(c, setsym_state, T1);
    *ao = a_out; *so = s_out;
    return call(NEGOTIATE, c);
}
static struct sockaddr addr_;
static sfsistat f_connect(SMFICTX *c, char *h, _SOCK_ADDR *a) { VP_ASSERT(h == T1 && (gpointer)a == (gpointer)&addr_, "host and address"); return call(CONNECT_, c); }
static sfsistat f_helo(SMFICTX *c, char *h) { VP_ASSERT(h == T1, "the name"); return call(HELO, c); }
static sfsistat f_envfrom(SMFICTX *c, char **a) { VP_ASSERT(a[0] == T1 && a[1] == NULL, "the sender"); return call(FROM, c); }
static sfsistat f_envrcpt(SMFICTX *c, char **a) { VP_ASSERT(a[0] == T1 && a[1] == NULL, "the recipient"); return call(RCPT, c); }
static sfsistat f_header(SMFICTX *c, char *n, char *v) { VP_ASSERT(n == T1 && v == T2, "the header"); return call(HEADER, c); }
static sfsistat f_eoh(SMFICTX *c) { return call(EOH, c); }
static int body_answer, n_body;
static sfsistat f_body(SMFICTX *c, unsigned char *b, size_t n)
{ VP_ASSERT((char *)b == T1 && n == size_ && (gpointer)c == (gpointer)X && n_call == 0, "the chunk, whole"); n_body++; return body_answer; }
static sfsistat f_eom(SMFICTX *c) { return call(EOM, c); }
static sfsistat f_abort(SMFICTX *c) { return call(ABORT, c); }
static sfsistat f_close(SMFICTX *c) { VP_ASSERT(n_unref == 0, "while its context is there"); return call(CLOSE, c); }
static sfsistat f_unknown(SMFICTX *c, const char *t) { VP_ASSERT(t == T1, "the command"); return call(UNKNOWN, c); }
static sfsistat f_data(SMFICTX *c) { return call(DATA, c); }

/* the session */
MilterActionFlags milter_option_get_action(MilterOption *o) { VP_ASSERT(o == OPT, "the option"); return act_now; }
MilterStepFlags milter_option_get_step(MilterOption *o) { VP_ASSERT(o == OPT, "the option"); return step_now; }
void milter_option_set_action(MilterOption *o, MilterActionFlags f) { VP_ASSERT(o == OPT && n_call == 1 && f == (MilterActionFlags)a_out, "the actions the filter wants"); act_set++; }
void milter_option_set_step(MilterOption *o, MilterStepFlags f) { VP_ASSERT(o == OPT && n_call == 1 && f == (MilterStepFlags)s_out, "the steps the filter wants"); step_set++; }
static gboolean request(int what, MilterClientContext *c, GError **e)
{
    VP_ASSERT(c == CC, "asked of the filter's session");
    n_req++; req_ = what;
    if (!ok_ && e)
#ifdef VP_N
        *e = g_error_new_literal(1, 1, "e");
#else
        *e = &err_store;
#endif
    return ok_;
}
static const char *ext_, *msg_;
gboolean milter_client_context_set_reply(MilterClientContext *c, guint code, const gchar *x, const gchar *m, GError **e)
{ VP_ASSERT(code == (guint)num_ && x == ext_ && m == msg_, "the code and texts given"); return request(1, c, e); }
gboolean milter_client_context_add_header(MilterClientContext *c, const gchar *n, const gchar *v, GError **e)
{ VP_ASSERT(n == T1 && v == T2, "the header given"); return request(2, c, e); }
gboolean milter_client_context_change_header(MilterClientContext *c, const gchar *n, guint32 i, const gchar *v, GError **e)
{ VP_ASSERT(n == T1 && v == T2 && i == index_, "the header given"); return request(3, c, e); }
gboolean milter_client_context_insert_header(MilterClientContext *c, guint32 i, const gchar *n, const gchar *v, GError **e)
{ VP_ASSERT(n == T1 && v == T2 && i == index_, "the header given"); return request(4, c, e); }
gboolean milter_client_context_change_from(MilterClientContext *c, const gchar *n, const gchar *v, GError **e)
{ VP_ASSERT(n == T1 && v == T2, "the sender given"); return request(5, c, e); }
static const char *par_;
gboolean milter_client_context_add_recipient(MilterClientContext *c, const gchar *n, const gchar *v, GError **e)
{ VP_ASSERT(n == T1 && v == par_, "the recipient given"); return request(6, c, e); }
gboolean milter_client_context_delete_recipient(MilterClientContext *c, const gchar *n, GError **e)
{ VP_ASSERT(n == T1, "the recipient given"); return request(7, c, e); }
gboolean milter_client_context_progress(MilterClientContext *c) { return request(8, c, NULL); }
gboolean milter_client_context_replace_body(MilterClientContext *c, const gchar *b, gsize n, GError **e)
{ VP_ASSERT(b == T1 && n == (gsize)num_, "the body given"); return request(9, c, e); }
gboolean milter_client_context_quarantine(MilterClientContext *c, const gchar *r) { VP_ASSERT(r == T1, "the reason given"); return request(10, c, NULL); }
const gchar *milter_protocol_agent_get_macro(MilterProtocolAgent *a, const gchar *n) { VP_ASSERT((gpointer)a == (gpointer)CC && n == T1, "the macro asked for"); n_req++; return T2; }
/* what libmilter's SMFIM_* stand for */
static MilterCommand command_of(int s)
{
    switch (s) {
    case SMFIM_CONNECT: return MILTER_COMMAND_CONNECT; case SMFIM_HELO: return MILTER_COMMAND_HELO;
    case SMFIM_ENVFROM: return MILTER_COMMAND_ENVELOPE_FROM; case SMFIM_ENVRCPT: return MILTER_COMMAND_ENVELOPE_RECIPIENT;
    case SMFIM_DATA: return MILTER_COMMAND_DATA; case SMFIM_EOM: return MILTER_COMMAND_END_OF_MESSAGE;
    case SMFIM_EOH: return MILTER_COMMAND_END_OF_HEADER;
    }
    return 0;
}
MilterCommand milter_utils_macro_stage_to_command(MilterMacroStage s) { return command_of(s); }
void milter_macros_requests_set_symbols_string_array(MilterMacrosRequests *r, MilterCommand c, const gchar **v)
{ VP_ASSERT(r == REQ && (gpointer)v == (gpointer)VEC, "the macros asked for go with the answer of the negotiation"); n_sym++; sym_command = c; }
MilterMacrosRequests *milter_macros_requests_new(void) { return (MilterMacrosRequests *)&unknown_; }
MilterMacrosRequests *milter_protocol_agent_get_macros_requests(MilterProtocolAgent *a) { return NULL; }
static gchar **my_strsplit(const gchar *s, const gchar *d, gint max) { VP_ASSERT(s == T1 && d[0] == ' ' && !d[1] && max < 1, "the list given, by space"); return VEC; }
static void my_strfreev(gchar **v) { VP_ASSERT(v == VEC, "the list is released"); }
static int my_atoi(const char *s) { VP_ASSERT(s == T3, "the code given"); return num_; }
static const char *spec_dup;
static gchar *my_strdup_printf(const gchar *f, const gchar *a) { VP_ASSERT(same(f, "unix:%s") && a == T1, "a path is that of a socket"); n_dup++; return &fmt_; }
static const gchar *registered_name;
static gchar *my_strdup(const gchar *s)
{
    n_dup++;
    if (s == T1) return &dup_;
    VP_ASSERT(!registered_name || s == registered_name, "a filter keeps its name");
    return name_;
}
static int freed_fmt, freed_dup, freed_old, freed_desc, freed_name;
static gchar old_, copyname_;
static struct smfiDesc copy_;
static void my_free(gpointer p)
{
    if (p == &fmt_) freed_fmt++; else if (p == &dup_) freed_dup++; else if (p == &old_) freed_old++;
    else if (p == &desc_) freed_desc++; else if (p == &copyname_) freed_name++;
}
static gpointer my_memdup(gconstpointer p, guint n) { VP_ASSERT(n == sizeof copy_, "the whole description"); copy_ = *(struct smfiDesc *)p; return &copy_; }
static const gchar *my_getenv(const gchar *n) { return NULL; }
static gpointer my_new(GType t, const gchar *name, gpointer v, gpointer end)
{ VP_ASSERT(same(name, "client_context") && v == (gpointer)CC, "of this session"); n_new++; return X; }
gpointer (g_object_ref)(gpointer o) { if (o == (gpointer)CC) n_unref--; return o; }
#define VP_OWN_REFCOUNT 1
void g_object_unref(gpointer o) { if (o == &obj_ || o == (gpointer)CC) n_unref++; else if (o == &client_) n_client_unref++; }
static void my_channel_unref(GIOChannel *c) { if ((gpointer)c == (gpointer)&channel_) n_channel_unref++; }
/* the client */
#define CL ((MilterClient *)&client_)
void milter_init(void) { n_init++; }
void milter_quit(void) { n_quit++; }
MilterClient *milter_client_new(void) { n_new++; return CL; }
void milter_client_set_event_loop_backend(MilterClient *c, MilterClientEventLoopBackend b) { }
gint milter_utils_enum_from_string(GType t, const gchar *s, GError **e) { return 0; }
gboolean milter_client_set_connection_spec(MilterClient *c, const gchar *s, GError **e) { VP_ASSERT(c == CL && s == &old_ && !n_run, "where the filter listens"); n_set |= 1; return TRUE; }
void milter_client_set_listen_channel(MilterClient *c, GIOChannel *ch) { VP_ASSERT(c == CL && (gpointer)ch == (gpointer)&channel_ && !n_run, "its socket"); n_set |= 2; }
void milter_client_set_listen_backlog(MilterClient *c, gint b) { VP_ASSERT(c == CL && b == num_ && !n_run, "how many may wait"); n_set |= 4; }
void milter_client_set_timeout(MilterClient *c, guint t) { VP_ASSERT(c == CL && t == index_ && !n_run, "how long"); n_set |= 8; }
gboolean milter_client_run(MilterClient *c, GError **e) { VP_ASSERT(c == CL, "it runs"); VP_ASSERT(client == CL, "and can be stopped"); n_run++; if (!ok_)
#ifdef VP_N
    *e = g_error_new_literal(1, 1, "e");
#else
    *e = &err_store;
#endif
    return ok_; }
static int n_stop;
void milter_client_shutdown(MilterClient *c) { VP_ASSERT(c == CL, "the filter is stopped"); n_stop++; }
static const char *parsed_;
gboolean milter_connection_parse_spec(const gchar *s, gint *d, struct sockaddr **a, socklen_t *n, GError **e)
{ parsed_ = s; if (!ok_)
#ifdef VP_N
    *e = g_error_new_literal(1, 1, "e");
#else
    *e = &err_store;
#endif
    return ok_; }
GIOChannel *milter_connection_listen(const gchar *s, gint b, struct sockaddr **a, socklen_t *n, gboolean r, GError **e)
{ VP_ASSERT(s == &old_ && b == num_ && !!r == (int)index_, "the socket of the filter"); n_listen++; if (!ok_) {
#ifdef VP_N
    *e = g_error_new_literal(1, 1, "e");
#else
    *e = &err_store;
#endif
    return NULL; } return (GIOChannel *)&channel2_; }
static MilterLogLevelFlags level_; static int n_level;

static MilterStatus status_of(int s)
{
    switch (s) {
    case SMFIS_CONTINUE: return MILTER_STATUS_CONTINUE; case SMFIS_REJECT: return MILTER_STATUS_REJECT;
    case SMFIS_DISCARD: return MILTER_STATUS_DISCARD; case SMFIS_ACCEPT: return MILTER_STATUS_ACCEPT;
    case SMFIS_TEMPFAIL: return MILTER_STATUS_TEMPORARY_FAILURE; case SMFIS_NOREPLY: return MILTER_STATUS_NO_REPLY;
    case SMFIS_SKIP: return MILTER_STATUS_SKIP; case SMFIS_ALL_OPTS: return MILTER_STATUS_ALL_OPTIONS;
    }
    return MILTER_STATUS_DEFAULT;
}

#ifdef CASE_mlreply
/* lines are told by their place: lengths and content as the tests on them find them */
static char line_[4][4], text_[8];
static GString text_string;
static size_t length_[4]; static int has_cr[4], n_text, n_freed;
static int line_at(const char *s) { int i; for (i = 0; i < 3; i++) if (s == line_[i]) return i; return 3; }
static size_t my_strlen(const char *s) { VP_ASSERT(line_at(s) < 3, "of a line"); return length_[line_at(s)]; }
static char *my_strchr(const char *s, int c)
{
    VP_ASSERT(line_at(s) < 3 && (c == '\r' || c == '\n'), "of a line");
    return c == '\r' && has_cr[line_at(s)] ? (char *)s : NULL;
}
static GString *my_string_new(const gchar *s) { VP_ASSERT(s == NULL, "the text starts empty"); text_string.str = text_; return &text_string; }
static GString *my_string_append(GString *o, const gchar *s)
{
    if (n_text & 1) VP_ASSERT(s[0] == '\n' && s[1] == 0, "lines are told apart");
    else VP_ASSERT(s == line_[n_text / 2], "the lines in their order, each once");
    n_text++;
    return o;
}
static gchar *my_string_free(GString *o, gboolean all) { n_freed++; return NULL; }
#endif

int vp_main(void)
{
    MilterStatus st;
    guint mask = vp_u32("callbacks");
    vp_set_private(X, smfi_context_get_type(), &priv_);
    priv_.client_context = CC;
    filter_description = &desc_;
#define CB(w, f) desc_.xxfi_##f = (mask >> w & 1) ? f_##f : NULL
    CB(NEGOTIATE, negotiate); CB(CONNECT_, connect); CB(HELO, helo); CB(FROM, envfrom); CB(RCPT, envrcpt); CB(DATA, data);
    CB(UNKNOWN, unknown); CB(HEADER, header); CB(EOH, eoh); CB(BODY, body); CB(EOM, eom); CB(ABORT, abort); CB(CLOSE, close);
    answer_ = (int)vp_u32("answer"); ok_ = vp_bool("ok");
    act_now = vp_u32("action") & 0x7fffffff; step_now = vp_u32("step") & 0x7fffffff; a_out = vp_u32("action_out"); s_out = vp_u32("step_out");
    index_ = vp_u32("index"); num_ = (gint)vp_u32("num"); size_ = vp_u64("size");
#define HAS(w) (mask >> (w) & 1)
#define ANSWERED(w) do { VP_ASSERT(n_call == (int)HAS(w) && (!n_call || called_ == (w)), "the callback of the event is called once"); \
        VP_ASSERT(st == (HAS(w) ? status_of(answer_) : MILTER_STATUS_DEFAULT), "its answer is the answer"); VP_REACH("answered"); } while (0)
#if defined(CASE_negotiate)
    setsym_ = vp_bool("setsym"); setsym_state = (int)vp_u32("state"); T1[0] = vp_bool("empty") ? 0 : 'x';
    /* as the session calls it: with the macro requests of the answer */
    st = ((MilterStatus (*)(MilterClientContext *, MilterOption *, MilterMacrosRequests *, gpointer))(gpointer)cb_negotiate)(CC, OPT, REQ, X);
    ANSWERED(NEGOTIATE);
    VP_ASSERT(act_set == (HAS(NEGOTIATE) && answer_ == SMFIS_CONTINUE) && step_set == act_set, "what the filter wants counts if it goes on");
    if (HAS(NEGOTIATE) && setsym_) {
        int good = command_of(setsym_state) != 0 && T1[0];
        VP_ASSERT(setsym_result == (good ? MI_SUCCESS : MI_FAILURE) && n_sym == good, "the macros it asks for are asked for");
        if (good) VP_ASSERT(sym_command == command_of(setsym_state), "at the command it said");
    }
    VP_ASSERT(smfi_setsymlist(X, SMFIM_CONNECT, T1) == MI_FAILURE, "macros can be asked for then only");
#elif defined(CASE_connect)
    st = cb_connect(CC, T1, &addr_, 16, X); ANSWERED(CONNECT_);
#elif defined(CASE_helo)
    st = cb_helo(CC, T1, X); ANSWERED(HELO);
#elif defined(CASE_envelope)
    if (vp_bool("recipient")) { st = cb_envelope_recipient(CC, T1, X); ANSWERED(RCPT); }
    else { st = cb_envelope_from(CC, T1, X); ANSWERED(FROM); }
#elif defined(CASE_data)
    if (vp_bool("unknown")) { st = cb_unknown(CC, T1, X); ANSWERED(UNKNOWN); }
    else { st = cb_data(CC, X); ANSWERED(DATA); }
#elif defined(CASE_header)
    if (vp_bool("end")) { st = cb_end_of_header(CC, X); ANSWERED(EOH); }
    else { st = cb_header(CC, T1, T2, X); ANSWERED(HEADER); }
#elif defined(CASE_body)
    body_answer = answer_;
    st = cb_body(CC, (const guchar *)T1, size_, X);
    VP_REACH("answered");
    VP_ASSERT(n_body == (int)HAS(BODY) && n_call == 0, "the callback of the event is called once");
    VP_ASSERT(st == (HAS(BODY) ? status_of(answer_) : MILTER_STATUS_DEFAULT), "its answer is the answer");
#elif defined(CASE_end_of_message)
    {
        int chunk = vp_bool("chunk"), final;
        body_answer = (int)vp_u32("body_answer");
        final = chunk && size_ > 0 && HAS(BODY) && (body_answer == SMFIS_REJECT || body_answer == SMFIS_DISCARD || body_answer == SMFIS_ACCEPT || body_answer == SMFIS_TEMPFAIL);
        st = cb_end_of_message(CC, chunk ? T1 : NULL, size_, X);
        VP_REACH("answered");
        VP_ASSERT(n_body == (chunk && size_ > 0 && HAS(BODY)), "the last chunk is part of the body");
        VP_ASSERT(n_call == (!final && HAS(EOM)), "then the message ends, unless that decided it");
        VP_ASSERT(st == (final ? status_of(body_answer) : HAS(EOM) ? status_of(answer_) : MILTER_STATUS_DEFAULT), "the answer is that of the last called");
    }
#elif defined(CASE_abort)
    {
        int state = vp_below("state", 40), in = state >= MILTER_CLIENT_CONTEXT_STATE_ENVELOPE_FROM && state <= MILTER_CLIENT_CONTEXT_STATE_BODY_REPLIED;
        st = cb_abort(CC, state, X);
        VP_REACH("answered");
        VP_ASSERT(n_call == (HAS(ABORT) && in), "an abort is that of a message");
        VP_ASSERT(st == (HAS(ABORT) && in ? status_of(answer_) : MILTER_STATUS_DEFAULT), "its answer is the answer");
    }
#elif defined(CASE_finished)
    cb_finished(MILTER_FINISHED_EMITTABLE(CC), X);
    VP_REACH("closed");
    VP_ASSERT(n_call == (int)HAS(CLOSE) && n_unref == 1, "the end is told once and the context released");
#elif defined(CASE_attach)
    {
        int i;
        priv_.client_context = NULL;
        smfi_context_set_client_context(X, CC);
        VP_REACH("attached");
        VP_ASSERT(priv_.client_context == CC && n_unref == -1, "a context holds its session");
        for (i = NEGOTIATE; i < CLOSE; i++) VP_ASSERT(!(conn >> i & 1) == !(HAS(i) || (i == EOM && HAS(BODY))), "it listens to what the filter has a callback for");
        VP_ASSERT(conn >> CLOSE & 1, "and to its end");
        smfi_context_set_client_context(X, NULL);
        VP_ASSERT(conn == 0 && n_unref == 0 && priv_.client_context == NULL, "and leaves it as it was");
        cb_connection_established(CL, CC, NULL);
        VP_ASSERT(n_new == 1, "each connection gets a context");
    }
#elif defined(CASE_request)
    {
        int what = 1 + vp_below("what", 11), session = vp_bool("session"), r, kind = what;
        if (!session) priv_.client_context = NULL;
        ext_ = vp_bool("ext") ? T1 : NULL; msg_ = vp_bool("msg") ? T2 : NULL; par_ = NULL;
        switch (what) {
        case 1: r = smfi_setreply(X, T3, (char *)ext_, (char *)msg_); break;
        case 2: r = smfi_addheader(X, T1, T2); break;
        case 3: r = smfi_chgheader(X, T1, (int)index_, T2); break;
        case 4: r = smfi_insheader(X, (int)index_, T1, T2); break;
        case 5: r = smfi_chgfrom(X, T1, T2); break;
        case 6: r = smfi_addrcpt(X, T1); break;
        case 7: r = smfi_delrcpt(X, T1); break;
        case 8: r = smfi_progress(X); break;
        case 9: vp_assume(num_ >= 0); r = smfi_replacebody(X, (unsigned char *)T1, num_); break;
        case 10: r = smfi_quarantine(X, T1); break;
        default: par_ = T2; kind = 6; r = smfi_addrcpt_par(X, T1, T2); break;
        }
        VP_REACH("requested");
        VP_ASSERT(n_req == session && (!session || req_ == kind), "a request is made once");
        VP_ASSERT(r == (session && ok_ ? MI_SUCCESS : MI_FAILURE), "and succeeds if it was carried out");
        n_req = 0;
        VP_ASSERT(smfi_getsymval(X, T1) == (session ? T2 : NULL) && n_req == session, "a macro is that of the session");
        VP_ASSERT(smfi_setpriv(X, T3) == MI_SUCCESS && smfi_getpriv(X) == T3, "the filter's own data is kept");
    }
#elif defined(CASE_mlreply)
    {
        int n = vp_below("lines", 4), i, good, r;
        for (i = 0; i < 3; i++) { line_[i][0] = 'x'; length_[i] = (size_t)(vp_bool("near") ? 979 + vp_below("by", 4) : vp_u64("length")); has_cr[i] = vp_bool("cr"); }
        ext_ = vp_bool("ext") ? T2 : NULL; msg_ = text_;
        good = 1;
        for (i = 0; i < n; i++) if (length_[i] > 980 || has_cr[i]) good = 0;
        switch (n) {
        case 0: r = smfi_setmlreply(X, T3, ext_, (char *)NULL); break;
        case 1: r = smfi_setmlreply(X, T3, ext_, line_[0], (char *)NULL); break;
        case 2: r = smfi_setmlreply(X, T3, ext_, line_[0], line_[1], (char *)NULL); break;
        default: r = smfi_setmlreply(X, T3, ext_, line_[0], line_[1], line_[2], (char *)NULL); break;
        }
        VP_REACH("requested");
        VP_ASSERT(n_freed == 1, "the text is released");
        VP_ASSERT(n_req == good && (!good || n_text == (n ? 2 * n - 1 : 0)), "a reply of lines that fit is made of all of them");
        VP_ASSERT(r == (good && ok_ ? MI_SUCCESS : MI_FAILURE), "and succeeds if it was carried out");
    }
#elif defined(CASE_register)
    {
        int had = vp_bool("had"), named = vp_bool("named"), r, known;
        desc_.xxfi_name = &copyname_;
        if (!had) filter_description = NULL;
        given_ = desc_; given_.xxfi_name = named ? T2 : NULL; given_.xxfi_version = (int)vp_u32("version"); given_.xxfi_flags = act_now;
        known = given_.xxfi_version == SMFI_VERSION || (given_.xxfi_version >= 2 && given_.xxfi_version <= 4);
        registered_name = given_.xxfi_name;
        r = smfi_register(given_);
        VP_REACH("registered");
        VP_ASSERT(r == (known ? MI_SUCCESS : MI_FAILURE), "a filter of another version is refused");
        if (known) {
            VP_ASSERT(filter_description == &copy_ && copy_.xxfi_name == name_ && n_dup == 1, "else it is kept, as a copy");
            VP_ASSERT(copy_.xxfi_version == given_.xxfi_version && copy_.xxfi_flags == act_now && copy_.xxfi_negotiate == given_.xxfi_negotiate &&
                      copy_.xxfi_connect == given_.xxfi_connect && copy_.xxfi_eom == given_.xxfi_eom && copy_.xxfi_close == given_.xxfi_close, "as it is");
            VP_ASSERT(freed_desc == had && freed_name == had, "in place of the one before");
        } else VP_ASSERT(filter_description == (had ? &desc_ : NULL) && freed_desc == 0, "which leaves the one before");
    }
#elif defined(CASE_settings)
    {
        unsigned int a = 7, b = 7, c = 7;
        listen_backlog = 7; timeout = 9;
        VP_ASSERT(smfi_setbacklog(num_) == (num_ > 0 ? MI_SUCCESS : MI_FAILURE) && listen_backlog == (num_ > 0 ? num_ : 7), "how many may wait is as set, if that is possible");
        VP_ASSERT(smfi_settimeout((int)index_) == MI_SUCCESS && timeout == index_, "as is the timeout");
        VP_ASSERT(smfi_version(&a, &b, &c) == MI_SUCCESS && a == 1 && b == 0 && c == 1, "the version is that of libmilter's interface");
        client = ok_ ? CL : NULL;
        VP_ASSERT(smfi_stop() == MI_SUCCESS && n_stop == ok_, "a running filter is stopped");
        VP_ASSERT(n_init <= 1, "the library is set up once");
        VP_REACH("set");
    }
#elif defined(CASE_setconn)
    {
        int had = vp_bool("had"), null = vp_bool("null"), r, colon; const char *want;
        T1[0] = vp_u8("c0"); T1[1] = vp_u8("c1"); T1[2] = 0;
        colon = T1[0] == ':' || (T1[0] && T1[1] == ':');
        connection_spec = had ? &old_ : NULL;
        r = smfi_setconn(null ? NULL : T1);
        want = colon ? &dup_ : &fmt_;
        VP_REACH("set");
        VP_ASSERT(r == (!null && ok_ ? MI_SUCCESS : MI_FAILURE), "a place to listen at that cannot be read is refused");
        if (r == MI_SUCCESS) VP_ASSERT(parsed_ == want && connection_spec == want && freed_old == had && freed_fmt + freed_dup == 0, "else it is the place, a path without kind that of a socket");
        else VP_ASSERT(connection_spec == (had ? &old_ : NULL) && freed_old == 0 && freed_fmt + freed_dup == !null, "which leaves the one before");
    }
#elif defined(CASE_opensocket)
    {
        int desc = vp_bool("desc"), spec = vp_bool("spec"), had = vp_bool("had"), r;
        if (!desc) filter_description = NULL;
        connection_spec = spec ? &old_ : NULL; listen_channel = had ? (GIOChannel *)&channel_ : NULL; listen_backlog = num_; index_ = index_ & 1;
        r = smfi_opensocket(index_);
        VP_REACH("opened");
        VP_ASSERT(r == (desc && spec && ok_ ? MI_SUCCESS : MI_FAILURE) && n_listen == (desc && spec), "a filter registered opens its socket");
        VP_ASSERT(listen_channel == (r == MI_SUCCESS ? (GIOChannel *)&channel2_ : had ? (GIOChannel *)&channel_ : NULL), "and listens there");
        VP_ASSERT(n_channel_unref == (had && r == MI_SUCCESS), "in place of the one before");
    }
#elif defined(CASE_main)
    {
        int r;
        connection_spec = &old_; listen_channel = (GIOChannel *)&channel_; listen_backlog = num_; timeout = index_;
        desc_.xxfi_name = &copyname_;
        r = smfi_main();
        VP_REACH("ran");
        VP_ASSERT(n_run == 1 && n_new == 1 && n_set == 15 && n_listen == 1, "the filter runs with the settings made");
        VP_ASSERT(r == (ok_ ? MI_SUCCESS : MI_FAILURE), "it says whether it could");
        VP_ASSERT(n_client_unref == 1 && client == NULL && n_quit == n_init, "and is gone then");
        VP_ASSERT(filter_description == NULL && connection_spec == NULL && listen_channel == NULL && listen_backlog == -1 && timeout == 7210, "as are the settings");
        VP_ASSERT(freed_desc == 1 && freed_name == 1 && freed_old == 1 && n_channel_unref == 1, "released");
    }
#elif defined(CASE_convert)
    {
        MilterStatus s = libmilter_compatible_convert_status_to(answer_);
        VP_REACH("converted");
        VP_ASSERT(s == status_of(answer_), "the statuses are libmilter's");
        if (s != MILTER_STATUS_DEFAULT) VP_ASSERT(libmilter_compatible_convert_status_from(s) == answer_, "both ways");
    }
#else
#error no case
#endif
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
