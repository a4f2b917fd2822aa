/* Shared part of the children harnesses: the real milter-manager-children.c
 * over ghost milters.  A milter (MilterServerContext + MilterManagerChild) is
 * a record of the state the real accessors report plus a log of what was
 * asked of it; what the real server context does with a request is specified
 * in the server_context harness.
 *
 *  A    reply_queue and reply_statuses are ghost containers (any number of
 *       other milters), the list of milters is summarised by K[0] (the
 *       witness) and the contracts of the functions that walk it
 *  B/N  up to three concrete milters, real lists
 */
#include "vp.h"
#ifdef VP_A
#define VP_OWN_GQUEUE 1
#endif
#define VP_HT_DIRECT 1
#undef VP_HTCAP
#define VP_HTCAP 8
#include "milter/manager/milter-manager-children.c"

/* ------------------------------------------------------------- milters */
#define NK 3
typedef struct {
    MilterManagerChild o;
    MilterServerContextState state, set_state;
    MilterStatus status, set_status, fallback;
    gboolean sync, quitted, processing, pm, accepted, negotiated, skip, need_reply, evaluation, own_space;
    /* what happened to it */
    int n_abort, n_quit, n_reset, n_pm_false, n_expired, n_gone, n_continue, n_set_state, n_set_status;
    int n_sent;                 /* commands sent to it */
    MilterCommand sent;         /* the last one */
    gconstpointer arg; gconstpointer arg2; gsize size;
    int n_macros; MilterCommand macros_for; gpointer macros;
    int n_established, n_negotiated; gpointer option;
} Kid;
static Kid K[NK];
#ifdef VP_EXPECT_SENDABLE
static void answer_now(Kid *k);      /* it may answer synchronously */
#endif
static Kid *kid(gconstpointer c)
{
    int i, r = -1;
    for (i = 0; i < NK; i++) if (c == (gconstpointer)&K[i]) r = i;
    VP_ASSERT(r >= 0, "a milter of this session");
    vp_assume(r >= 0);
    return &K[r];
}
/* a field of the milter: told apart by comparison, so that no access goes
 * through an arbitrary pointer */
#define IS_KID(c, i) ((gconstpointer)(c) == (gconstpointer)&K[i])
#define KGET(c, f) (kid(c), IS_KID(c, 0) ? K[0].f : IS_KID(c, 1) ? K[1].f : K[2].f)
#define KDO(c, S) do { kid(c); if (IS_KID(c, 0)) { Kid *k = &K[0]; S; } else if (IS_KID(c, 1)) { Kid *k = &K[1]; S; } else { Kid *k = &K[2]; S; } } while (0)
#define CTX(i) ((MilterServerContext *)&K[i])
static MilterManagerChildren *C;
static struct { GObject o[4]; } c_obj;
static MilterManagerChildrenPrivate priv_, *P;
static int seq_;                /* order of observable events */

MilterServerContextState milter_server_context_get_state(MilterServerContext *c) { return KGET(c, state); }
MilterServerContextState milter_server_context_get_last_state(MilterServerContext *c) { return KGET(c, state); }
void milter_server_context_set_state(MilterServerContext *c, MilterServerContextState s)
{ KDO(c, k->n_set_state++; k->set_state = s; k->state = s); }
MilterStatus milter_server_context_get_status(MilterServerContext *c) { return KGET(c, status); }
void milter_server_context_set_status(MilterServerContext *c, MilterStatus s)
{ KDO(c, k->n_set_status++; k->set_status = s; k->status = s); }
static int alive(const Kid *k) { return k->negotiated && !k->quitted; }
static int handling(const Kid *k) { return alive(k) && k->pm; }
gboolean milter_server_context_is_quitted(MilterServerContext *c) { return !KGET(c, negotiated) || KGET(c, quitted); }
void milter_server_context_set_quitted(MilterServerContext *c, gboolean q)
{ VP_ASSERT(q, "a milter that is gone does not come back"); KDO(c, k->quitted = q; k->n_gone++); }
gboolean milter_server_context_is_processing(MilterServerContext *c) { return KGET(c, processing); }
gboolean milter_server_context_is_processing_message(MilterServerContext *c) { return KGET(c, negotiated) && !KGET(c, quitted) && KGET(c, pm); }
void milter_server_context_set_processing_message(MilterServerContext *c, gboolean p)
{ VP_ASSERT(!p, "only the milter itself starts processing a message"); KDO(c, k->pm = p; k->n_pm_false++); }
gboolean milter_server_context_has_accepted_recipient(MilterServerContext *c) { return KGET(c, accepted); }
gboolean milter_server_context_is_negotiated(MilterServerContext *c) { return KGET(c, negotiated); }
gboolean milter_server_context_get_skip_body(MilterServerContext *c) { return KGET(c, skip); }
gboolean milter_server_context_need_reply(MilterServerContext *c, MilterServerContextState s) { return KGET(c, need_reply); }
gboolean milter_server_context_is_enable_step(MilterServerContext *c, MilterStepFlags f)
{
    VP_ASSERT(f == MILTER_STEP_HEADER_VALUE_WITH_LEADING_SPACE, "model: step asked for");
    return kid(c)->own_space;
}
const gchar *milter_server_context_get_name(MilterServerContext *c) { return "milter"; }
guint milter_agent_get_tag(MilterAgent *a) { return 1; }
gdouble milter_server_context_get_elapsed(MilterServerContext *c) { return 0; }
gboolean milter_manager_child_is_evaluation_mode(MilterManagerChild *c) { return KGET(c, evaluation); }
MilterStatus milter_manager_child_get_fallback_status(MilterManagerChild *c) { return KGET(c, fallback); }
gboolean milter_server_context_abort(MilterServerContext *c) { KDO(c, k->n_abort++; k->pm = FALSE); return TRUE; }
gboolean milter_server_context_quit(MilterServerContext *c) { KDO(c, k->n_quit++; k->quitted = TRUE); return TRUE; }
void milter_server_context_reset_message_related_data(MilterServerContext *c) { KDO(c, k->n_reset++; k->pm = FALSE); }
guint g_signal_handlers_disconnect_matched(gpointer i, GSignalMatchType m, guint id, GQuark d, GClosure *cl, gpointer f, gpointer u)
{ KDO(i, k->n_expired++); return 1; }
static void sent_to(Kid *k, MilterCommand cmd, gconstpointer a, gconstpointer b, gsize n)
{
    VP_ASSERT(alive(k), "nothing is sent to a milter that is gone");
#ifdef VP_EXPECT_SENDABLE
    VP_ASSERT(sendable(k - K), "only the milters that take part are asked");
#endif
    k->n_sent++; k->sent = cmd; k->arg = a; k->arg2 = b; k->size = n;
#ifdef VP_EXPECT_SENDABLE
    /* the milter did not want the command: it has answered already */
    answer_now(k);
#endif
}
static gboolean sent(MilterServerContext *c, MilterCommand cmd, gconstpointer a, gconstpointer b, gsize n)
{
    KDO(c, sent_to(k, cmd, a, b, n));
    return TRUE;
}
gboolean milter_server_context_connect(MilterServerContext *c, const gchar *h, struct sockaddr *a, socklen_t n)
{ return sent(c, MILTER_COMMAND_CONNECT, h, a, n); }
gboolean milter_server_context_helo(MilterServerContext *c, const gchar *f) { return sent(c, MILTER_COMMAND_HELO, f, NULL, 0); }
gboolean milter_server_context_envelope_from(MilterServerContext *c, const gchar *f) { return sent(c, MILTER_COMMAND_ENVELOPE_FROM, f, NULL, 0); }
gboolean milter_server_context_envelope_recipient(MilterServerContext *c, const gchar *f) { return sent(c, MILTER_COMMAND_ENVELOPE_RECIPIENT, f, NULL, 0); }
gboolean milter_server_context_data(MilterServerContext *c) { return sent(c, MILTER_COMMAND_DATA, NULL, NULL, 0); }
gboolean milter_server_context_unknown(MilterServerContext *c, const gchar *f) { return sent(c, MILTER_COMMAND_UNKNOWN, f, NULL, 0); }
gboolean milter_server_context_header(MilterServerContext *c, const gchar *n, const gchar *v) { return sent(c, MILTER_COMMAND_HEADER, n, v, 0); }
gboolean milter_server_context_end_of_header(MilterServerContext *c) { return sent(c, MILTER_COMMAND_END_OF_HEADER, NULL, NULL, 0); }
gboolean milter_server_context_body(MilterServerContext *c, const gchar *p, gsize n) { return sent(c, MILTER_COMMAND_BODY, p, NULL, n); }
gboolean milter_server_context_end_of_message(MilterServerContext *c, const gchar *p, gsize n) { return sent(c, MILTER_COMMAND_END_OF_MESSAGE, p, NULL, n); }

/* --------------------------------------------------- what the MTA side sees */
#define VP_OWN_EMIT_BY_NAME 1
enum { EV_REPLY_CODE = 100, EV_PROGRESS, EV_REPLACE_BODY, EV_INSERT_HEADER, EV_ADD_HEADER, EV_CHANGE_HEADER, EV_DELETE_HEADER,
       EV_CHANGE_FROM, EV_QUARANTINE, EV_ADD_RECIPIENT, EV_DELETE_RECIPIENT, EV_CONNECTION_FAILURE, EV_SHUTDOWN, EV_ABORT,
       EV_NEGOTIATE_REPLY };
static int n_reply, n_progress, n_modification, n_error, n_negotiate_reply;
static int reply_id;                    /* MilterStatus or EV_REPLY_CODE */
static guint reply_code; static const char *reply_ext, *reply_msg;
typedef struct { int id; const char *p0, *p1; guint u; gsize n; } Ev;
#ifdef VP_N
#define KEEP(s) g_strdup(s)
#else
#define KEEP(s) (s)
#endif
static void vp_modification(const Ev *e);
/* the signal a name stands for; names are told apart by three characters and
 * compared completely in the native runs */
static int ev_id(const gchar *s)
{
#ifdef VP_N
#define IS(x) VP_ASSERT(vp_name_is(s, x), "a signal of this name exists")
#else
#define IS(x) (void)0
#endif
    switch (s[0]) {
    case 'c':
        if (s[1] == 'h') {
            if (s[7] == 'f') { IS("change-from"); return EV_CHANGE_FROM; }
            IS("change-header"); return EV_CHANGE_HEADER;
        }
        if (s[3] == 't') { IS("continue"); return MILTER_STATUS_CONTINUE; }
        IS("connection-failure"); return EV_CONNECTION_FAILURE;
    case 'r':
        if (s[2] == 'j') { IS("reject"); return MILTER_STATUS_REJECT; }
        if (s[4] == 'y') { IS("reply-code"); return EV_REPLY_CODE; }
        IS("replace-body"); return EV_REPLACE_BODY;
    case 'd':
        if (s[1] == 'i') { IS("discard"); return MILTER_STATUS_DISCARD; }
        if (s[7] == 'h') { IS("delete-header"); return EV_DELETE_HEADER; }
        IS("delete-recipient"); return EV_DELETE_RECIPIENT;
    case 'a':
        if (s[1] == 'c') { IS("accept"); return MILTER_STATUS_ACCEPT; }
        if (s[1] == 'b') { IS("abort"); return EV_ABORT; }
        if (s[4] == 'h') { IS("add-header"); return EV_ADD_HEADER; }
        IS("add-recipient"); return EV_ADD_RECIPIENT;
    case 't': IS("temporary-failure"); return MILTER_STATUS_TEMPORARY_FAILURE;
    case 's':
        if (s[1] == 'k') { IS("skip"); return MILTER_STATUS_SKIP; }
        IS("shutdown"); return EV_SHUTDOWN;
    case 'p': IS("progress"); return EV_PROGRESS;
    case 'i': IS("insert-header"); return EV_INSERT_HEADER;
    case 'q': IS("quarantine"); return EV_QUARANTINE;
    case 'n': IS("negotiate-reply"); return EV_NEGOTIATE_REPLY;
    default: VP_ASSERT(0, "a signal of this name exists"); return EV_SHUTDOWN;
    }
}
void g_signal_emit_by_name(gpointer instance, const gchar *name, ...)
{
    va_list ap; Ev e = { 0, NULL, NULL, 0, 0 };
    e.id = ev_id(name);
    if (instance != (gpointer)C) {
        VP_ASSERT(e.id == MILTER_STATUS_CONTINUE, "a milter that does not reply counts as continue");
        KDO(instance, k->n_continue++);
#ifdef VP_ON_DUMMY
        dummy_continue(kid(instance) - K);
#endif
        return;
    }
    va_start(ap, name);
    switch (e.id) {
    case EV_REPLY_CODE: e.u = va_arg(ap, guint); e.p0 = va_arg(ap, gpointer); e.p1 = va_arg(ap, gpointer); break;
    case EV_REPLACE_BODY: e.p0 = va_arg(ap, gpointer); e.n = va_arg(ap, gsize); break;
    case EV_INSERT_HEADER: e.u = va_arg(ap, guint); e.p0 = va_arg(ap, gpointer); e.p1 = va_arg(ap, gpointer); break;
    case EV_CHANGE_HEADER: e.p0 = va_arg(ap, gpointer); e.u = va_arg(ap, guint); e.p1 = va_arg(ap, gpointer); break;
    case EV_DELETE_HEADER: e.p0 = va_arg(ap, gpointer); e.u = va_arg(ap, guint); break;
    case EV_ADD_HEADER: case EV_CHANGE_FROM: case EV_ADD_RECIPIENT: case EV_NEGOTIATE_REPLY:
        e.p0 = va_arg(ap, gpointer); e.p1 = va_arg(ap, gpointer); break;
    case EV_QUARANTINE: case EV_DELETE_RECIPIENT: e.p0 = va_arg(ap, gpointer); break;
    default: break;
    }
    va_end(ap);
    if (e.id < EV_REPLY_CODE) { n_reply++; reply_id = e.id; }
    else if (e.id == EV_REPLY_CODE) { n_reply++; reply_id = e.id; reply_code = e.u; reply_ext = KEEP(e.p0); reply_msg = KEEP(e.p1); }
    else if (e.id == EV_PROGRESS) n_progress++;
    else { if (e.id == EV_NEGOTIATE_REPLY) n_negotiate_reply++; else n_modification++; vp_modification(&e); }
}
void vp_on_emit(VpEmit *e) { VP_ASSERT(0, "model: signals are emitted by name"); }
void milter_error_emittable_emit(MilterErrorEmittable *e, GError *err)
{ VP_ASSERT((gpointer)e == (gpointer)C && err, "errors are reported for the session"); n_error++; }
static int n_finished;
void milter_finished_emittable_emit(MilterFinishedEmittable *e) { n_finished++; }

/* ------------------------------------------------------------ severities */
static int rank_of(MilterStatus s)
{
    switch (s) {
    case MILTER_STATUS_DISCARD: return 6;
    case MILTER_STATUS_REJECT: return 5;
    case MILTER_STATUS_TEMPORARY_FAILURE: return 4;
    case MILTER_STATUS_CONTINUE: return 3;
    case MILTER_STATUS_SKIP: return 2;
    case MILTER_STATUS_ACCEPT: return 1;
    default: return 0;
    }
}
static MilterStatus worse(MilterStatus a, MilterStatus b) { return rank_of(b) > rank_of(a) ? b : a; }
static MilterStatus any_status(const char *t)
{
    static const MilterStatus s[] = { MILTER_STATUS_NOT_CHANGE, MILTER_STATUS_ACCEPT, MILTER_STATUS_SKIP, MILTER_STATUS_CONTINUE,
                                      MILTER_STATUS_TEMPORARY_FAILURE, MILTER_STATUS_REJECT, MILTER_STATUS_DISCARD };
    return s[vp_below(t, 7)];
}
static int name_of(MilterStatus s) { return rank_of(s) ? (int)s : MILTER_STATUS_CONTINUE; }
static int is_message_state(int s)
{ return s >= MILTER_SERVER_CONTEXT_STATE_HEADER && s <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE; }
static MilterStatus status_for(int s)
{
    gpointer v = g_hash_table_lookup(P->reply_statuses, GINT_TO_POINTER(s));
    return v ? (MilterStatus)GPOINTER_TO_INT(v) : MILTER_STATUS_NOT_CHANGE;
}

static gboolean any_bool(const char *t) { return vp_bool(t); }
static void any_kid(int i)
{
    Kid *k = &K[i];
    k->quitted = any_bool("quitted"); k->processing = any_bool("processing"); k->pm = any_bool("pm");
    k->accepted = any_bool("accepted"); k->negotiated = any_bool("negotiated"); k->skip = any_bool("skip");
    k->need_reply = any_bool("need_reply"); k->evaluation = any_bool("evaluation"); k->own_space = any_bool("space");
    k->fallback = any_status("fallback"); k->status = any_status("status");
    k->state = MILTER_SERVER_CONTEXT_STATE_START + vp_below("state", 14);
}

#ifdef VP_A
/* ---- the reply queue: the witness and any number of others ---- */
static int q_w; static guint q_others;
static GList q_head_;
static void q_sync(GQueue *q) { q->length = q_others + (q_w ? 1 : 0); q->head = q->length ? &q_head_ : NULL; q->tail = q->head; }
static void q_is(GQueue *q)
{
    VP_ASSERT(q == P->reply_queue && q, "the queue of awaited replies");
    if (!q->head) q_w = q_others = 0;   /* emptied in place */
}
GQueue *g_queue_new(void) { return calloc(1, sizeof(GQueue)); }
void g_queue_free(GQueue *q) { }
void g_queue_push_tail(GQueue *q, gpointer d)
{
    q_is(q);
    if (d == (gpointer)&K[0]) { VP_ASSERT(!q_w, "an answer is awaited once"); q_w = 1; }
    else { kid(d); vp_assume(q_others < 0x7fffffff); q_others++; }
    q_sync(q);
}
gboolean g_queue_is_empty(GQueue *q) { q_is(q); return !q_w && q_others == 0; }
guint g_queue_get_length(GQueue *q) { q_is(q); return q_others + (q_w ? 1 : 0); }
GList *g_queue_find(GQueue *q, gconstpointer d) { static GList n; q_is(q); n.data = (gpointer)d; return kid(d) == &K[0] ? (q_w ? &n : NULL) : q_others > 0 && vp_bool("awaited") ? &n : NULL; }
gboolean g_queue_remove(GQueue *q, gconstpointer d)
{
    int had;
    q_is(q);
    if (d != (gpointer)&K[0]) { VP_ASSERT(q_others > 0, "an awaited milter is removed"); q_others--; q_sync(q); return TRUE; }
    had = q_w; q_w = 0; q_sync(q);
    return had;
}
#define AWAITED (q_w)
#define OTHERS_AWAITED (q_others > 0)
#else
#define AWAITED (g_queue_find(P->reply_queue, &K[0]) != NULL)
static int others_awaited(void)
{ GList *n; for (n = P->reply_queue->head; n; n = n->next) if (n->data != (gpointer)&K[0]) return 1; return 0; }
#define OTHERS_AWAITED others_awaited()
#endif
