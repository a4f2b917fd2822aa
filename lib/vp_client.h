/* Shared part of the client context harnesses: the real
 * milter-client-context.c over ghost collaborators (encoder, writer, event
 * loop, message result, options), which record what they are given.
 *
 *  A  packets of any size; a byte string is the list of the packets in it
 *  N  the same contracts over real GStrings and bytes */
#include "vp.h"
#ifdef VP_A
#define VP_OWN_GSTRING 1
#define VP_OWN_REMOVE_ALL 1
#endif
#include "milter/client/milter-client-context.c"

static struct { GObject o[8]; } c_obj;
#define CTX ((MilterClientContext *)&c_obj)
static MilterClientContextPrivate priv_;
#define P (&priv_)
static MilterClientContextClass klass_;
static MilterAgentClass parent_;
#define ST(s) MILTER_CLIENT_CONTEXT_STATE_##s

/* ------------------------------------------------------------- packets */
/* a packet is a token; a byte string is a list of tokens */
#define T_OLD 1                 /* what was buffered before */
#define T_NEW 2                 /* the k-th packet encoded is T_NEW + k */
#define NT 6
static gsize tsize[NT]; static int n_encoded;
typedef struct { int n, tok[NT]; } Toks;
static gsize toks_len(const Toks *t) { gsize n = 0; int i; for (i = 0; i < t->n; i++) n += tsize[t->tok[i]]; return n; }
#ifdef VP_A
typedef struct { GString g; Toks t; char mem[1]; } GS;
static GS B_, O_; static int o_live;
static char enc_byte[1]; static int enc_now;    /* the packet in the encoder's buffer */
static GS *gs_of(GString *g)
{ VP_ASSERT(g == &B_.g || (g == &O_.g && o_live), "model: byte string"); return g == &B_.g ? &B_ : &O_; }
static void gs_put(GS *s, int at_front, const gchar *v, gsize n)
{
    int i;
    VP_ASSERT(v == enc_byte && enc_now && n == tsize[enc_now], "packets are taken whole from the encoder");
    VP_ASSERT(s->t.n < NT, "model: packets"); vp_assume(s->t.n < NT);
    if (at_front) { for (i = NT - 1; i > 0; i--) s->t.tok[i] = s->t.tok[i - 1]; s->t.tok[0] = enc_now; }
    else s->t.tok[s->t.n] = enc_now;
    s->t.n++; s->g.len += n;
}
GString *g_string_append_len(GString *g, const gchar *v, gssize n) { gs_put(gs_of(g), 0, v, n); return g; }
GString *g_string_prepend_len(GString *g, const gchar *v, gssize n) { gs_put(gs_of(g), 1, v, n); return g; }
GString *g_string_new_len(const gchar *v, gssize n)
{ VP_ASSERT(!o_live, "model: one packet at a time"); o_live = 1; O_.t.n = 0; O_.g.len = 0; O_.g.str = O_.mem; gs_put(&O_, 0, v, n); return &O_.g; }
GString *g_string_truncate(GString *g, gsize n)
{ GS *s = gs_of(g); VP_ASSERT(n == 0 || n == g->len, "model: truncation"); if (n == 0) { s->t.n = 0; g->len = 0; } return g; }
GString *g_string_set_size(GString *g, gsize n) { return g_string_truncate(g, n); }
GString *g_string_assign(GString *g, const gchar *v) { VP_ASSERT(v[0] == '\0', "model: assignment"); return g_string_truncate(g, 0); }
GString *g_string_erase(GString *g, gssize at, gssize n) { VP_ASSERT(at == 0 && (n < 0 || (gsize)n == g->len), "model: erasure"); return g_string_truncate(g, 0); }
GString *g_string_new(const gchar *v) { VP_ASSERT(!v && !o_live, "model: one packet at a time"); o_live = 1; O_.t.n = 0; O_.g.len = 0; O_.g.str = O_.mem; return &O_.g; }
GString *g_string_append(GString *g, const gchar *v) { VP_ASSERT(0, "model: texts are not packets"); return g; }
GString *g_string_append_c(GString *g, gchar c) { VP_ASSERT(0, "model: texts are not packets"); return g; }
GString *g_string_insert_c(GString *g, gssize at, gchar c) { VP_ASSERT(0, "model: texts are not packets"); return g; }
gchar *g_string_free(GString *g, gboolean all)
{ VP_ASSERT(g == &O_.g && o_live && all, "the packet is dropped after it was written"); o_live = 0; return NULL; }
static Toks buffered(void) { return B_.t; }
static void toks_of(const char *p, gsize n, Toks *t)
{
    if (p == enc_byte) { VP_ASSERT(enc_now && n == tsize[enc_now], "packets are written whole"); t->n = 1; t->tok[0] = enc_now; }
    else {
        GS *s = p == B_.mem ? &B_ : &O_;
        VP_ASSERT(p == B_.mem || (p == O_.mem && o_live), "what is written is a packet");
        VP_ASSERT(n == s->g.len, "packets are written whole");
        *t = s->t;
    }
}
#else
static guint8 enc_bytes[8];
static void toks_of(const char *p, gsize n, Toks *t)
{
    gsize i = 0, k;
    t->n = 0;
    while (i < n) {
        int tok = p[i];
        VP_ASSERT(tok >= 1 && tok < NT && t->n < NT && i + tsize[tok] <= n, "packets are written whole");
        for (k = 0; k < tsize[tok]; k++) VP_ASSERT(p[i + k] == tok, "packets are written whole");
        t->tok[t->n++] = tok; i += tsize[tok];
    }
}
static Toks buffered(void) { Toks t; toks_of(P->buffered_packets->str, P->buffered_packets->len, &t); return t; }
#endif
static int toks_eq(const Toks *a, int n, int t0, int t1)
{ return a->n == n && VP_IMPLIES(n > 0, a->tok[0] == t0) && VP_IMPLIES(n > 1, a->tok[1] == t1); }

/* -------------------------------------------------------------- encoder */
/* SMFIR_* or 'n' for delete header, 'Y' for a recipient with parameters */
typedef struct { int kind; gconstpointer a, b; guint64 n; } Enc;
static Enc E_[NT];
static int encoder_, enc_fail;
MilterEncoder *milter_agent_get_encoder(MilterAgent *a) { VP_ASSERT((gpointer)a == (gpointer)CTX, "this context"); return (MilterEncoder *)&encoder_; }
#define PS MilterReplyEncoder *e, const gchar **packet, gsize *size
static void enc(PS, int kind, gconstpointer a, gconstpointer b, guint64 n)
{
    int t = T_NEW + n_encoded;
    VP_ASSERT((gpointer)e == (gpointer)&encoder_, "the encoder of this context");
    VP_ASSERT(t < NT, "model: packets"); vp_assume(t < NT);
    E_[n_encoded].kind = kind; E_[n_encoded].a = a; E_[n_encoded].b = b; E_[n_encoded].n = n;
    n_encoded++;
    if (enc_fail) { *packet = NULL; *size = 0; return; }
#ifdef VP_A
    enc_now = t; *packet = enc_byte;
#else
    memset(enc_bytes, t, sizeof enc_bytes);
    *packet = (gchar *)enc_bytes;
#endif
    *size = tsize[t];
}
#define ENC(k, a, b, n) enc(e, packet, size, k, a, b, n)
void milter_reply_encoder_encode_continue(PS) { ENC('c', NULL, NULL, 0); }
void milter_reply_encoder_encode_reply_code(PS, const gchar *c) { ENC('y', c, NULL, 0); }
void milter_reply_encoder_encode_temporary_failure(PS) { ENC('t', NULL, NULL, 0); }
void milter_reply_encoder_encode_reject(PS) { ENC('r', NULL, NULL, 0); }
void milter_reply_encoder_encode_accept(PS) { ENC('a', NULL, NULL, 0); }
void milter_reply_encoder_encode_discard(PS) { ENC('d', NULL, NULL, 0); }
void milter_reply_encoder_encode_skip(PS) { ENC('s', NULL, NULL, 0); }
void milter_reply_encoder_encode_progress(PS) { ENC('p', NULL, NULL, 0); }
void milter_reply_encoder_encode_add_header(PS, const gchar *n, const gchar *v) { ENC('h', n, v, 0); }
void milter_reply_encoder_encode_insert_header(PS, guint32 i, const gchar *n, const gchar *v) { ENC('i', n, v, i); }
void milter_reply_encoder_encode_change_header(PS, const gchar *n, guint32 i, const gchar *v) { ENC('m', n, v, i); }
void milter_reply_encoder_encode_delete_header(PS, const gchar *n, guint32 i) { ENC('n', n, NULL, i); }
void milter_reply_encoder_encode_change_from(PS, const gchar *f, const gchar *p) { ENC('e', f, p, 0); }
void milter_reply_encoder_encode_add_recipient(PS, const gchar *r, const gchar *p) { ENC('+', r, p, 0); }
void milter_reply_encoder_encode_delete_recipient(PS, const gchar *r) { ENC('-', r, NULL, 0); }
void milter_reply_encoder_encode_quarantine(PS, const gchar *r) { ENC('q', r, NULL, 0); }
void milter_reply_encoder_encode_negotiate(PS, MilterOption *o, MilterMacrosRequests *m) { ENC('O', o, m, 0); }
#ifndef OWN_REPLACE_BODY
void milter_reply_encoder_encode_replace_body(PS, const gchar *b, gsize n, gsize *packed) { VP_ASSERT(0, "model: body"); }
#endif

/* -------------------------------------------------------------- timers */
static int loop_; static guint tm_live, tm_last, timer0; static int n_timers;
MilterEventLoop *milter_agent_get_event_loop(MilterAgent *a) { VP_ASSERT((gpointer)a == (gpointer)CTX, "this context"); return (MilterEventLoop *)&loop_; }
guint milter_event_loop_add_timeout(MilterEventLoop *l, gdouble s, GSourceFunc f, gpointer d)
{
    VP_ASSERT(tm_live == 0, "one timeout at a time");
    VP_ASSERT(l == (MilterEventLoop *)&loop_ && d == (gpointer)CTX && f == cb_timeout && s == P->timeout, "the timeout of this context, for its time");
    tm_live = ++tm_last; n_timers++;
    return tm_live;
}
gboolean milter_event_loop_remove(MilterEventLoop *l, guint id)
{ VP_ASSERT(id && id == tm_live, "the running timeout is stopped"); tm_live = 0; return TRUE; }
#define TIMER_OK VP_ASSERT(P->timeout_id == tm_live, "the running timeout is known")

/* -------------------------------------------------------------- writer */
static int n_written, write_fail, n_shutdown, n_flushed, parent_fail, write_state; static Toks W_[3];
gboolean milter_agent_write_packet(MilterAgent *a, const char *p, gsize n, GError **e)
{
    VP_ASSERT((gpointer)a == (gpointer)CTX, "this context");
    VP_ASSERT(n_written < 3, "model: writes"); vp_assume(n_written < 3);
    VP_ASSERT(tm_live && P->timeout_id == tm_live, "the MTA is given its time");
    toks_of(p, n, &W_[n_written]);
    n_written++; write_state = P->state;
    if (write_fail == n_written) { *e = vp_error("write"); return FALSE; }
    return TRUE;
}
static gboolean parent_flush(MilterAgent *a, GError **e)
{
    VP_ASSERT((gpointer)a == (gpointer)CTX && !parent_fail, "the packets written are flushed");
    n_flushed++;
    return TRUE;
}
gboolean milter_agent_flush(MilterAgent *a, GError **e) { return ((MilterAgentClass *)&klass_)->flush(a, e); }
void milter_agent_shutdown(MilterAgent *a) { VP_ASSERT((gpointer)a == (gpointer)CTX, "this context"); n_shutdown++; }
guint milter_agent_get_tag(MilterAgent *a) { return 1; }

/* ------------------------------------------------------------- options */
static int opt_[3]; static guint32 action_;
#define OPT ((MilterOption *)&opt_[0])
#define OPT_NEW ((MilterOption *)&opt_[1])
#define OPT_COPY ((MilterOption *)&opt_[2])
MilterActionFlags milter_option_get_action(MilterOption *o) { VP_ASSERT(o == OPT, "the negotiated options"); return action_; }
MilterOption *milter_option_copy(MilterOption *o) { VP_ASSERT(o == OPT_NEW, "the options of the MTA are copied"); return OPT_COPY; }

/* ------------------------------------------------------ message result */
static int mr_, mr_new, mr_start, mr_stop, mr_status, mr0;
#define MR ((MilterMessageResult *)&mr_)
#define THIS_RESULT VP_ASSERT(r == MR, "the result of this message")
MilterMessageResult *milter_message_result_new(void) { VP_ASSERT(!P->message_result, "one result for a message"); mr_new++; return MR; }
void milter_message_result_start(MilterMessageResult *r) { THIS_RESULT; mr_start++; }
void milter_message_result_stop(MilterMessageResult *r) { THIS_RESULT; mr_stop++; }
void milter_message_result_set_state(MilterMessageResult *r, MilterState s) { THIS_RESULT; }
void milter_message_result_set_status(MilterMessageResult *r, MilterStatus s) { THIS_RESULT; mr_status = s; }

/* ------------------------------------------------------ protocol agent */
static MilterCommand mctx; static int n_mctx, n_macros_cleared, n_shelf_cleared;
void milter_protocol_agent_set_macro_context(MilterProtocolAgent *a, MilterCommand c) { VP_ASSERT((gpointer)a == (gpointer)CTX, "this context"); mctx = c; n_mctx++; }
void milter_protocol_agent_clear_message_related_macros(MilterProtocolAgent *a) { VP_ASSERT((gpointer)a == (gpointer)CTX, "this context"); n_macros_cleared++; }

/* --------------------------------------------------------------- errors */
static int n_error, last_error;
void milter_error_emittable_emit(MilterErrorEmittable *e, GError *err)
{ VP_ASSERT((gpointer)e == (gpointer)CTX && err, "this context"); n_error++; last_error = err->code; }
void milter_utils_set_error_with_sub_error(GError **e, GQuark d, gint code, GError *sub, const gchar *f, ...)
{ VP_ASSERT(sub, "there is a cause"); g_set_error(e, d, code, "x"); }

gchar *milter_utils_get_flags_names(GType t, guint f) { return g_strdup("flags"); }

/* ---------------------------------------------------------------- set up */
static MilterClientContextState state0, last0; static MilterStatus status0; static gboolean buffering0;
static char *quarantine0;
static void setup(void)
{
    int i;
    vp_witness();
    vp_set_private(CTX, milter_client_context_get_type(), P);
    vp_class_init(milter_client_context_get_type(), &klass_);
    parent_.flush = parent_flush;
    milter_client_context_parent_class = &parent_;
    state0 = P->state = vp_below("state", 29);
    last0 = P->last_state = vp_below("last_state", 29);
    status0 = P->status = vp_below("status", 14);
    P->option = vp_bool("option") ? OPT : NULL;
    action_ = vp_u32("action");
    P->timeout = vp_u32("timeout");
    tm_last = 7;
    if (vp_bool("timer")) P->timeout_id = tm_live = ++tm_last;
    timer0 = tm_live;
    P->message_result = vp_bool("result") ? MR : NULL;
    mr0 = P->message_result != NULL;
    P->use_bytes = vp_bool("bytes");
    P->packet_buffer_size = vp_u32("buffer size");
    P->quarantine_reason = quarantine0 = vp_bool("quarantine") ? vp_cstr("reason") : NULL;
    write_fail = vp_below("write_fail", 3); enc_fail = 0;
    for (i = 1; i < NT; i++) {
#ifdef VP_A
        tsize[i] = nondet_vp_u32(); vp_assume(tsize[i] >= 1 && tsize[i] <= VP_AMAX);
#else
        tsize[i] = 1 + vp_below("size", 3);
#endif
    }
    buffering0 = P->buffering = vp_bool("buffering");
#ifdef VP_A
    P->buffered_packets = &B_.g; B_.g.str = B_.mem;
    if (buffering0) { B_.t.n = 1; B_.t.tok[0] = T_OLD; B_.g.len = tsize[T_OLD]; }
#else
    P->buffered_packets = g_string_new(NULL);
    if (buffering0) for (i = 0; i < (int)tsize[T_OLD]; i++) g_string_append_c(P->buffered_packets, T_OLD);
    P->mail_transaction_shelf = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, g_free);
    g_hash_table_insert(P->mail_transaction_shelf, g_strdup("key"), g_strdup("value"));
#endif
}
