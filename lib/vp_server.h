/* Shared part of the server context harnesses: the real
 * milter-server-context.c over ghost collaborators (encoder, writer, event
 * loop, message result, options), which record what they are given.
 *
 *  A  any sizes; the body kept and the packet written are positions in the
 *     stream of body bytes and a list of encoded packets
 *  N  the same contracts over real GStrings, lists and bytes */
#include "vp.h"
#ifdef VP_A
#define VP_OWN_GSTRING 1
#endif
#include "milter/server/milter-server-context.c"

static struct { GObject o[8]; } c_obj;
#define CTX ((MilterServerContext *)&c_obj)
static MilterServerContextPrivate priv_;
#define P (&priv_)
#ifdef VP_A
#define MAX_PACKET 65535        /* what milter_command_encoder_encode_body() takes at most (C01) */
#else
#define MAX_PACKET 3
#endif

/* ------------------------------------------------------------- options */
static int opt_[3];
#define OPT ((MilterOption *)&opt_[0])
#define OPT_NEW ((MilterOption *)&opt_[1])      /* the one given */
#define OPT_COPY ((MilterOption *)&opt_[2])
static guint32 version_, version_new; static guint step_;
static int combine_ok, n_combined, n_copied;
MilterStepFlags milter_option_get_step(MilterOption *o) { VP_ASSERT(o == OPT || o == OPT_COPY, "the options of this milter"); return step_; }
guint32 milter_option_get_version(MilterOption *o) { VP_ASSERT(o, "there are options"); return o == OPT_NEW ? version_new : version_; }
gboolean milter_option_combine(MilterOption *d, MilterOption *s)
{ VP_ASSERT(d == OPT && s == OPT_NEW, "the reply is combined into the options of this milter"); n_combined++; return combine_ok; }
MilterOption *milter_option_copy(MilterOption *s) { VP_ASSERT(s == OPT_NEW, "the options given are copied"); n_copied++; return OPT_COPY; }
static int needs_reply(MilterServerContextState s)
{
    switch (s) {
    case MILTER_SERVER_CONTEXT_STATE_CONNECT: return !(step_ & 0x1000);
    case MILTER_SERVER_CONTEXT_STATE_HELO: return !(step_ & 0x2000);
    case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM: return !(step_ & 0x4000);
    case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT: return !(step_ & 0x8000);
    case MILTER_SERVER_CONTEXT_STATE_DATA: return !(step_ & 0x10000);
    case MILTER_SERVER_CONTEXT_STATE_UNKNOWN: return !(step_ & 0x20000);
    case MILTER_SERVER_CONTEXT_STATE_HEADER: return !(step_ & 0x80);
    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER: return !(step_ & 0x40000);
    case MILTER_SERVER_CONTEXT_STATE_BODY: return !(step_ & 0x80000);
    default: return 1;
    }
}

/* -------------------------------------------------------------- timers */
static int loop_; static guint tm_live, tm_last; static GSourceFunc tm_fn; static const gdouble *tm_time; static int n_timers;
MilterEventLoop *milter_agent_get_event_loop(MilterAgent *a) { VP_ASSERT((gpointer)a == (gpointer)CTX, "this milter"); return (MilterEventLoop *)&loop_; }
static guint fresh_timer(void) { tm_live = ++tm_last; return tm_live; }
guint milter_event_loop_add_timeout(MilterEventLoop *l, gdouble s, GSourceFunc f, gpointer d)
{
    VP_ASSERT(tm_live == 0, "one timeout at a time");
    VP_ASSERT(d == (gpointer)CTX, "the timeout is of this milter");
    VP_ASSERT(f == cb_writing_timeout ? s == P->writing_timeout : f == cb_reading_timeout ? s == P->reading_timeout :
              f == cb_end_of_message_timeout && s == P->end_of_message_timeout, "the timeout runs for the time configured for it");
    tm_fn = f; n_timers++;
    return fresh_timer();
}
gboolean milter_event_loop_remove(MilterEventLoop *l, guint id)
{ VP_ASSERT(id && id == tm_live, "the running timeout is stopped"); tm_live = 0; return TRUE; }
#define TIMER_OK VP_ASSERT(P->timeout_id == tm_live, "the running timeout is known")

/* ------------------------------------------------------ message result */
static int mr_;
#define MR ((MilterMessageResult *)&mr_)
static int mr_new, mr_state, mr_status, mr_stop, mr_elapsed, n_recipient, n_removed, n_rejected, n_tempfailed, n_body_size, mr_quarantine, n_from, n_result_header;
static gconstpointer mr_recipient_arg, mr_from, rcpt_; static guint64 mr_body_size;
static const char *rh_name, *rh_value; static int rh_list;
#define THIS_RESULT VP_ASSERT(r == MR, "the result of this message")
MilterMessageResult *milter_message_result_new(void) { VP_ASSERT(!P->message_result, "one result for a message"); mr_new++; return MR; }
void milter_message_result_start(MilterMessageResult *r) { THIS_RESULT; }
void milter_message_result_stop(MilterMessageResult *r) { THIS_RESULT; mr_stop++; }
void milter_message_result_set_state(MilterMessageResult *r, MilterState s) { THIS_RESULT; mr_state = s; }
void milter_message_result_set_status(MilterMessageResult *r, MilterStatus s) { THIS_RESULT; mr_status = s; }
void milter_message_result_set_elapsed_time(MilterMessageResult *r, gdouble s) { THIS_RESULT; mr_elapsed++; }
void milter_message_result_set_from(MilterMessageResult *r, const gchar *f) { THIS_RESULT; n_from++; mr_from = f; }
void milter_message_result_add_recipient(MilterMessageResult *r, const gchar *f) { THIS_RESULT; n_recipient++; mr_recipient_arg = f; }
static void recipient_of(MilterMessageResult *r, const gchar *f, int *n)
{ THIS_RESULT; VP_ASSERT(f && f == (gconstpointer)rcpt_, "the recipient being asked about"); (*n)++; }
void milter_message_result_remove_recipient(MilterMessageResult *r, const gchar *f) { recipient_of(r, f, &n_removed); }
void milter_message_result_add_temporary_failed_recipient(MilterMessageResult *r, const gchar *f) { recipient_of(r, f, &n_tempfailed); }
void milter_message_result_add_rejected_recipient(MilterMessageResult *r, const gchar *f) { recipient_of(r, f, &n_rejected); }
void milter_message_result_add_body_size(MilterMessageResult *r, guint64 n) { THIS_RESULT; n_body_size++; mr_body_size = n; }
void milter_message_result_set_quarantine(MilterMessageResult *r, gboolean q) { THIS_RESULT; mr_quarantine = q; }
static int hl_[3];
MilterHeaders *milter_message_result_get_headers(MilterMessageResult *r) { THIS_RESULT; return (MilterHeaders *)&hl_[0]; }
MilterHeaders *milter_message_result_get_added_headers(MilterMessageResult *r) { THIS_RESULT; return (MilterHeaders *)&hl_[1]; }
MilterHeaders *milter_message_result_get_removed_headers(MilterMessageResult *r) { THIS_RESULT; return (MilterHeaders *)&hl_[2]; }
gboolean milter_headers_add_header(MilterHeaders *h, const gchar *n, const gchar *v)
{ n_result_header++; rh_name = n; rh_value = v; rh_list = (int *)h - hl_; return TRUE; }
static GList *l_recipients, *l_rejected, *l_tempfailed;
GList *milter_message_result_get_recipients(MilterMessageResult *r) { THIS_RESULT; return l_recipients; }
GList *milter_message_result_get_rejected_recipients(MilterMessageResult *r) { THIS_RESULT; return l_rejected; }
GList *milter_message_result_get_temporary_failed_recipients(MilterMessageResult *r) { THIS_RESULT; return l_tempfailed; }

/* ---------------------------------------------------------- body stream */
static gsize b0, b1;            /* the body kept should be the stream's bytes [b0, b1) */
static const gchar *chunk_; static gsize chunk_n;
enum { SEG_NONE, SEG_MACRO, SEG_COMMAND };
static gsize mac_n, cmd_n;      /* sizes of the packets encoded */
#ifdef VP_A
static struct { GString g; gsize start; } B_;
static char body_byte[2], enc_byte[2], out_byte[2];
static struct { GString g; int n, seg[2]; } O_;
static int o_live, enc_now;
static GString *body_string(gsize n) { B_.start = 0; B_.g.len = n; B_.g.str = body_byte; return &B_.g; }
GString *g_string_new(const gchar *v) { VP_ASSERT(!v, "model: an empty body"); return body_string(0); }
GString *g_string_append_len(GString *g, const gchar *v, gssize n)
{
    VP_ASSERT(g == &B_.g && v == chunk_ && n >= 0 && (gsize)n == chunk_n, "the chunk goes behind the body kept");
    g->len += n;
    return g;
}
GString *g_string_erase(GString *g, gssize at, gssize n)
{
    VP_ASSERT(g == &B_.g && at == 0 && n >= 0 && (gsize)n <= g->len, "only the front of the body is dropped");
    B_.start += n; g->len -= n;
    return g;
}
GString *g_string_truncate(GString *g, gsize n)
{ VP_ASSERT(g == &B_.g && n <= g->len, "the body gets no longer"); g->len = n; return g; }
static void seg(int at, const gchar *v, gsize n)
{
    VP_ASSERT(v == enc_byte && enc_now != SEG_NONE, "packets come from the encoder");
    VP_ASSERT(n == (enc_now == SEG_MACRO ? mac_n : cmd_n), "the packet is taken as a whole");
    if (at) O_.seg[1] = O_.seg[0];
    O_.seg[0] = enc_now;
    O_.n++;
    O_.g.len += n;
}
GString *g_string_new_len(const gchar *v, gssize n)
{
    VP_ASSERT(!o_live, "model: one packet at a time");
    o_live = 1; O_.n = 0; O_.g.len = 0; O_.g.str = out_byte;
    seg(0, v, n);
    return &O_.g;
}
GString *g_string_prepend_len(GString *g, const gchar *v, gssize n)
{ VP_ASSERT(g == &O_.g && o_live && O_.n == 1, "the macros go before the command"); seg(1, v, n); return g; }
gchar *g_string_free(GString *g, gboolean all)
{ VP_ASSERT(g == &O_.g && o_live && all, "the packet is dropped after it was written"); o_live = 0; return NULL; }
#define BODY_KEPT(what) VP_ASSERT(P->body->len == b1 - b0 && (P->body->len == 0 || B_.start == b0), what)
#else
static guint8 stream_[64];
static guint8 enc_bytes[8]; static gsize enc_len;
static GString *body_string(gsize n) { return g_string_new_len((gchar *)stream_, n); }
#define BODY_KEPT(what) VP_ASSERT(P->body->len == b1 - b0 && !memcmp(P->body->str, stream_ + b0, b1 - b0), what)
#endif

/* -------------------------------------------------------------- encoder */
static int encoder_;
static struct { MilterServerContextState state; MilterCommand cmd; gconstpointer a, b; gsize n; } X;   /* the request expected */
static int n_encoded, n_macro, enc_fail; static gsize sent0, sent1;
MilterEncoder *milter_agent_get_encoder(MilterAgent *a) { VP_ASSERT((gpointer)a == (gpointer)CTX, "this milter"); return (MilterEncoder *)&encoder_; }
static void give(int what, const gchar **packet, gsize *size)
{
#ifdef VP_A
    gsize n = nondet_vp_u32();
    vp_assume(n >= 5 && n <= VP_AMAX);
    enc_now = what; *packet = enc_byte;
    if (what == SEG_MACRO) mac_n = n; else cmd_n = n;
    *size = n;
#else
    /* the encoder has one buffer */
    memset(enc_bytes, what, sizeof enc_bytes);
    enc_len = what == SEG_MACRO ? 3 : 2;
    *packet = (gchar *)enc_bytes; *size = enc_len;
    if (what == SEG_MACRO) mac_n = enc_len; else cmd_n = enc_len;
#endif
}
static void encoded(MilterCommand c, gconstpointer a, gconstpointer b, gsize n, const gchar **packet, gsize *size)
{
    VP_ASSERT(c == X.cmd && a == X.a && b == X.b && n == X.n, "the request is encoded with exactly its arguments");
    n_encoded++;
    if (enc_fail) { *packet = NULL; *size = 0; return; }
    give(SEG_COMMAND, packet, size);
}
#define PS const gchar **packet, gsize *size
#define USED VP_ASSERT((gpointer)e == (gpointer)&encoder_, "with the encoder of this milter")
void milter_command_encoder_encode_connect(MilterCommandEncoder *e, PS, const gchar *h, const struct sockaddr *a, socklen_t n) { USED; encoded('C', h, a, n, packet, size); }
void milter_command_encoder_encode_helo(MilterCommandEncoder *e, PS, const gchar *f) { USED; encoded('H', f, NULL, 0, packet, size); }
void milter_command_encoder_encode_envelope_from(MilterCommandEncoder *e, PS, const gchar *f) { USED; encoded('M', f, NULL, 0, packet, size); }
void milter_command_encoder_encode_envelope_recipient(MilterCommandEncoder *e, PS, const gchar *f) { USED; encoded('R', f, NULL, 0, packet, size); }
void milter_command_encoder_encode_data(MilterCommandEncoder *e, PS) { USED; encoded('T', NULL, NULL, 0, packet, size); }
void milter_command_encoder_encode_unknown(MilterCommandEncoder *e, PS, const gchar *f) { USED; encoded('U', f, NULL, 0, packet, size); }
void milter_command_encoder_encode_header(MilterCommandEncoder *e, PS, const gchar *n, const gchar *v) { USED; encoded('L', n, v, 0, packet, size); }
void milter_command_encoder_encode_end_of_header(MilterCommandEncoder *e, PS) { USED; encoded('N', NULL, NULL, 0, packet, size); }
void milter_command_encoder_encode_body(MilterCommandEncoder *e, PS, const gchar *c, gsize n, gsize *packed)
{
    USED;
    VP_ASSERT(X.cmd == 'B' && c == P->body->str && n == P->body->len && n == b1 - b0, "the whole body kept is offered to the encoder");
    BODY_KEPT("the body sent is the part not sent yet");
    n_encoded++;
    *packed = n < MAX_PACKET ? n : MAX_PACKET;
    sent0 = b0; sent1 = b0 + *packed;
    give(SEG_COMMAND, packet, size);
}
void milter_command_encoder_encode_end_of_message(MilterCommandEncoder *e, PS, const gchar *c, gsize n) { USED; encoded('E', c, NULL, n, packet, size); }
void milter_command_encoder_encode_quit(MilterCommandEncoder *e, PS) { USED; encoded('Q', NULL, NULL, 0, packet, size); }
void milter_command_encoder_encode_abort(MilterCommandEncoder *e, PS) { USED; encoded('A', NULL, NULL, 0, packet, size); }
void milter_command_encoder_encode_negotiate(MilterCommandEncoder *e, PS, MilterOption *o) { USED; encoded('O', o, NULL, 0, packet, size); }
static void macros_encoded(GHashTable *t);
void milter_command_encoder_encode_define_macro(MilterCommandEncoder *e, PS, MilterCommand c, GHashTable *t)
{
    USED;
    VP_ASSERT(c == X.cmd, "the macros are those of the command");
    macros_encoded(t);
    n_macro++;
    give(SEG_MACRO, packet, size);
}

/* --------------------------------------------------------------- writer */
static int n_written, write_fail, n_shutdown, with_macro;
gboolean milter_agent_write_packet(MilterAgent *a, const char *p, gsize n, GError **e)
{
    VP_ASSERT((gpointer)a == (gpointer)CTX, "this milter");
#ifdef VP_A
    VP_ASSERT(p == out_byte && n == O_.g.len && o_live, "the whole packet is written");
    VP_ASSERT(O_.n == 1 + n_macro && O_.seg[0] == (n_macro ? SEG_MACRO : SEG_COMMAND) && VP_IMPLIES(n_macro, O_.seg[1] == SEG_COMMAND), "the macros of the command, then the command");
#else
    {
        gsize i;
        VP_ASSERT(n == cmd_n + (n_macro ? mac_n : 0), "the whole packet is written");
        for (i = 0; i < n; i++) VP_ASSERT(p[i] == (n_macro && i < mac_n ? SEG_MACRO : SEG_COMMAND), "the macros of the command, then the command");
    }
#endif
    n_written++;
    if (write_fail) { *e = vp_error("write"); return FALSE; }
    return TRUE;
}
void milter_agent_shutdown(MilterAgent *a) { VP_ASSERT((gpointer)a == (gpointer)CTX, "this milter"); n_shutdown++; }
guint milter_agent_get_tag(MilterAgent *a) { return 1; }

/* ------------------------------------------------------ protocol agent */
static MilterCommand mctx; static int n_mctx, n_macros_cleared, requests_, n_requests;
static GHashTable *macros_; static GList *symbols_;
#define REQUESTS ((MilterMacrosRequests *)&requests_)
static MilterMacrosRequests *has_requests;
void milter_protocol_agent_set_macro_context(MilterProtocolAgent *a, MilterCommand c) { mctx = c; n_mctx++; }
GHashTable *milter_protocol_agent_get_macros(MilterProtocolAgent *a) { VP_ASSERT(mctx == X.cmd, "the macros of the command"); return macros_; }
MilterMacrosRequests *milter_protocol_agent_get_macros_requests(MilterProtocolAgent *a) { return has_requests; }
void milter_protocol_agent_set_macros_requests(MilterProtocolAgent *a, MilterMacrosRequests *r) { n_requests++; has_requests = r; }
void milter_protocol_agent_clear_message_related_macros(MilterProtocolAgent *a) { n_macros_cleared++; }
GList *milter_macros_requests_get_symbols(MilterMacrosRequests *r, MilterCommand c)
{ VP_ASSERT(r == REQUESTS && c == X.cmd, "the macros the milter wants for the command"); return symbols_; }

/* --------------------------------------------------------------- errors */
static int n_error, last_error, n_events;
static void nested(void);
void milter_error_emittable_emit(MilterErrorEmittable *e, GError *err)
{
    VP_ASSERT((gpointer)e == (gpointer)CTX && err, "this milter");
    n_error++; n_events++; last_error = err->code;
}
void milter_utils_set_error_with_sub_error(GError **e, GQuark d, gint code, GError *sub, const gchar *f, ...)
{ VP_ASSERT(sub, "there is a cause"); g_set_error(e, d, code, "x"); }

/* --------------------------------------------------------------- timers */
#ifdef VP_CBMC
GTimer *g_timer_new(void) { return NULL; }
void g_timer_start(GTimer *t) { }
void g_timer_stop(GTimer *t) { }
void g_timer_continue(GTimer *t) { }
void g_timer_reset(GTimer *t) { }
gdouble g_timer_elapsed(GTimer *t, gulong *u) { return 0; }
#endif

/* -------------------------------------------------------------- signals */
static int n_stop_asked, stop_answer, n_stopped, n_processed, n_reply, n_trans, n_timeout_signal;
static const char *x_stop;              /* the stop condition expected to be asked */
static gconstpointer x_stop_arg[3]; static guint64 x_stop_n;
static void reply_signal(VpEmit *e);
static void transited(MilterServerContextState s);
static const char *x_timeout;
void vp_on_emit(VpEmit *e)
{
    VP_ASSERT(e->instance == (gpointer)CTX, "this milter's signal");
    n_events++;
    if (e->sig->ret == G_TYPE_BOOLEAN) {
        VP_ASSERT(x_stop && vp_is(e, x_stop), "the condition of the command is asked");
        n_stop_asked++;
        VP_ASSERT(mctx == X.cmd || X.cmd == 'H', "the condition sees the macros up to the command");
        if (X.cmd == 'C') VP_ASSERT(vp_streq(e->a[0].p, X.a) && e->a[1].p == X.b && e->a[2].u == X.n, "the condition sees the arguments");
        else if (X.cmd == 'H' || X.cmd == 'M' || X.cmd == 'R') VP_ASSERT(vp_streq(e->a[0].p, X.a), "the condition sees the arguments");
        else if (X.cmd == 'L') VP_ASSERT(vp_streq(e->a[0].p, X.a) && vp_streq(e->a[1].p, X.b), "the condition sees the arguments");
        else if (X.cmd == 'B') VP_ASSERT(e->a[0].p == chunk_ && VP_UNCUT(e, 0) && e->a[1].u == chunk_n, "the condition sees the arguments");
        else if (X.cmd == 'E') VP_ASSERT(e->a[0].p == X.a && VP_UNCUT(e, 0) && e->a[1].u == X.n, "the condition sees the arguments");
        e->ret = stop_answer;
    } else if (vp_is(e, "state-transited")) {
        n_trans++; transited(e->a[0].u);
    } else if (vp_is(e, "message-processed")) {
        VP_ASSERT(e->a[0].p == MR && mr_status == P->status && mr_stop == 1, "the result of the message is reported with its status");
        n_processed++;
    } else if (vp_is(e, "stopped")) {
        n_stopped++;
    } else if (x_timeout && vp_is(e, x_timeout)) {
        n_timeout_signal++;
        VP_ASSERT(n_shutdown == 0, "the timeout is reported before the milter is cut off");
    } else
        reply_signal(e);
}

/* ---- macros of the command ---- */
static int has_macros, n_prepended;
#ifdef VP_OWN_MACROS
#elif defined(VP_A)
void gh_prepend(MilterServerContext *c, GString *g, MilterCommand cmd)
{
    const gchar *p; gsize n;
    VP_ASSERT(c == CTX && g == &O_.g && cmd == X.cmd, "the macros of the command");
    n_prepended++;
    if (!has_macros) return;
    n_macro++;
    give(SEG_MACRO, &p, &n);
    g_string_prepend_len(g, p, n);
}
static void macros_encoded(GHashTable *t) { VP_ASSERT(0, "model: macros"); }
#else
static void macros_encoded(GHashTable *t) { VP_ASSERT(t && g_hash_table_size(t) > 0, "there are macros"); n_prepended++; }
#endif

/* ---------------------------------------------------------------- set up */
static int n_next0; static MilterServerContextState last_next;
static GList *n1_, *n2_;
static GList *next_states(void)
{
    GList *l = NULL; int i;
    n_next0 = vp_below("pending", 3);
    for (i = 0; i < n_next0; i++) {
        last_next = 1 + vp_below("next", 15);
        l = g_list_append(l, GUINT_TO_POINTER(last_next));
    }
    return l;
}
static int queue0, mr0; static MilterServerContextState state0; static guint timer0; static MilterStatus status0, rstatus0; static gboolean pm0, skip0, quitted0;
static void setup(void)
{
    static MilterServerContextClass klass;
    vp_witness();
    vp_set_private(CTX, milter_server_context_get_type(), P);
    vp_class_init(milter_server_context_get_type(), &klass);
    P->connection_timeout = 1; P->writing_timeout = 2; P->reading_timeout = 3; P->end_of_message_timeout = 4;
    P->name = "milter";
    state0 = P->state = 1 + vp_below("state", 15);
    P->last_state = 1 + vp_below("last_state", 15);
    status0 = P->status = vp_below("status", 14);
    rstatus0 = P->envelope_recipient_status = vp_below("rstatus", 14);
    step_ = vp_u32("step"); version_ = vp_below("version", 8);
    P->option = OPT;
    tm_last = 7;
    if (vp_bool("timer")) P->timeout_id = fresh_timer();
    timer0 = tm_live;
    P->negotiated = vp_bool("negotiated");
    pm0 = P->processing_message = vp_bool("pm");
    quitted0 = P->quitted = vp_bool("quitted");
    skip0 = P->skip_body = vp_bool("skip");
    P->message_result = vp_bool("result") ? MR : NULL;
    mr0 = P->message_result != NULL;
    P->current_recipient = vp_bool("recipient") ? vp_cstr("recipient") : NULL;
    rcpt_ = P->current_recipient;
#ifdef VP_N
    { int i; for (i = 0; i < 64; i++) stream_[i] = i * 7; P->elapsed = g_timer_new(); b1 = vp_below("body", 8); }
#else
    b1 = nondet_vp_u32(); vp_assume(b1 <= VP_AMAX);
#endif
    P->body = body_string(b1);
    queue0 = vp_bool("queue");
    if (queue0) P->body_response_queue = g_list_append(NULL, GUINT_TO_POINTER(1));
}
