/* (no other source of /repo: what the leader tells is recorded here) */
/* Contracts of what is between the milters and the context of the MTA
 * (milter-manager-leader.c): each command is given to the milters as what it
 * is and is answered once; what the milters decide is answered to the command
 * that is open, what they change is changed. */
#include "vp.h"
#define VP_OWN_EMIT_BY_NAME 1
#include "milter/manager/milter-manager-leader.c"

static struct { GObject o[8]; } l_obj, c_obj, k_obj, f_obj;
#define LEADER ((MilterManagerLeader *)&l_obj)
#define CTX ((MilterClientContext *)&c_obj)
#define KIDS ((MilterManagerChildren *)&k_obj)
#define CONF ((MilterManagerConfiguration *)&f_obj)
static MilterManagerLeaderPrivate priv_;
#define P (&priv_)
static MilterManagerLeaderClass klass_;
#define ST(s) MILTER_MANAGER_LEADER_STATE_##s

/* ------------------------------------------------------- what is observed */
static int n_reply, reply_status, reply_state_ok, reply_args_ok, n_negotiated; static const char *reply_name;
static gconstpointer neg_option, neg_requests;
static int n_error, n_finished, n_shutdown, n_abort, n_quit, n_reset, n_set, n_check, connected_, waiting_;
static guint set_code; static const char *set_ext, *set_text; static int reset_before_set;
static MilterStatus fallback_, fallback_disconnect;
static int fail_with_error, fail_;

static const char *response_of(MilterManagerLeaderState s)
{
    switch (s) {
    case ST(CONNECT): return "connect-response";
    case ST(HELO): return "helo-response";
    case ST(ENVELOPE_FROM): return "envelope-from-response";
    case ST(ENVELOPE_RECIPIENT): return "envelope-recipient-response";
    case ST(DATA): return "data-response";
    case ST(UNKNOWN): return "unknown-response";
    case ST(HEADER): return "header-response";
    case ST(END_OF_HEADER): return "end-of-header-response";
    case ST(BODY): case ST(BODY_REPLIED): return "body-response";
    case ST(END_OF_MESSAGE): return "end-of-message-response";
    case ST(ABORT): return "abort-response";
    default: return NULL;
    }
}
static MilterManagerLeaderState next_of(MilterManagerLeaderState s)
{
    if (s == ST(BODY) || s == ST(BODY_REPLIED)) return P->sent_end_of_message ? ST(END_OF_MESSAGE) : ST(BODY_REPLIED);
    return s + 1;               /* X_REPLIED follows X */
}
void g_signal_emit_by_name(gpointer instance, const gchar *name, ...)
{
    va_list ap;
    VP_ASSERT(instance == (gpointer)CTX, "the context of the MTA is told");
    va_start(ap, name);
    if (vp_name_is(name, "negotiate-response")) { neg_option = va_arg(ap, gpointer); neg_requests = va_arg(ap, gpointer); n_negotiated++; }
    else {
        const char *r = response_of(P->state);
        VP_ASSERT(r && vp_name_is(name, r), "the answer is to the command that is open");
        n_reply++;
    }
    reply_status = va_arg(ap, MilterStatus);
    va_end(ap);
}
void vp_on_emit(VpEmit *e)
{
    VP_ASSERT(e->instance == (gpointer)LEADER && vp_is(e, "connection-check"), "this leader's signal");
    n_check++; e->ret = connected_;
}
GType milter_error_emittable_get_type(void) { return 80; }
GType milter_finished_emittable_get_type(void) { return 80; }
void milter_error_emittable_emit(MilterErrorEmittable *e, GError *err)
{ VP_ASSERT((gpointer)e == (gpointer)LEADER && err, "the error of this leader"); n_error++; }
void milter_finished_emittable_emit(MilterFinishedEmittable *e) { VP_ASSERT((gpointer)e == (gpointer)LEADER, "this leader"); n_finished++; }
#define MINE VP_ASSERT(c == CTX, "the context of the MTA")
void milter_client_context_reset_reply(MilterClientContext *c) { MINE; n_reset++; }
gboolean milter_client_context_set_reply(MilterClientContext *c, guint code, const gchar *ext, const gchar *text, GError **e)
{
    MINE; VP_ASSERT(n_reply == 0 && n_negotiated == 0, "the reply code is set before it is sent");
    n_set++; set_code = code; set_ext = ext; set_text = text; reset_before_set = n_reset;
    if (fail_) { *e = vp_error("reply"); return FALSE; }
    return TRUE;
}
/* the changes; a failing one need not say why (no MTA is left) */
static struct { int n, kind; gconstpointer a, b; guint64 i; } M_;
static gboolean modify(MilterClientContext *c, int kind, gconstpointer a, gconstpointer b, guint64 i, GError **e)
{
    MINE; M_.n++; M_.kind = kind; M_.a = a; M_.b = b; M_.i = i;
    if (!fail_) return TRUE;
    if (fail_with_error) *e = vp_error("change");
    return FALSE;
}
#define CC MilterClientContext *c
gboolean milter_client_context_add_header(CC, const gchar *n, const gchar *v, GError **e) { return modify(c, 'h', n, v, 0, e); }
gboolean milter_client_context_insert_header(CC, guint32 i, const gchar *n, const gchar *v, GError **e) { return modify(c, 'i', n, v, i, e); }
gboolean milter_client_context_change_header(CC, const gchar *n, guint32 i, const gchar *v, GError **e) { return modify(c, 'm', n, v, i, e); }
gboolean milter_client_context_delete_header(CC, const gchar *n, guint32 i, GError **e) { return modify(c, 'n', n, NULL, i, e); }
gboolean milter_client_context_change_from(CC, const gchar *f, const gchar *p, GError **e) { return modify(c, 'e', f, p, 0, e); }
gboolean milter_client_context_add_recipient(CC, const gchar *f, const gchar *p, GError **e) { return modify(c, '+', f, p, 0, e); }
gboolean milter_client_context_delete_recipient(CC, const gchar *f, GError **e) { return modify(c, '-', f, NULL, 0, e); }
gboolean milter_client_context_replace_body(CC, const gchar *b, gsize n, GError **e) { return modify(c, 'b', b, NULL, n, e); }
gboolean milter_client_context_quarantine(CC, const gchar *r) { GError *e = NULL; return modify(c, 'q', r, NULL, 0, &e); }
gboolean milter_client_context_progress(CC) { GError *e = NULL; return modify(c, 'p', NULL, NULL, 0, &e); }
void milter_agent_shutdown(MilterAgent *a) { VP_ASSERT((gpointer)a == (gpointer)CTX, "the context of the MTA"); n_shutdown++; }
guint milter_agent_get_tag(MilterAgent *a) { return 1; }
gdouble milter_agent_get_elapsed(MilterAgent *a) { return 0; }
static int loop_;
MilterEventLoop *milter_agent_get_event_loop(MilterAgent *a) { VP_ASSERT((gpointer)a == (gpointer)CTX, "the context of the MTA"); return (MilterEventLoop *)&loop_; }
MilterStatus milter_manager_configuration_get_fallback_status(MilterManagerConfiguration *c) { VP_ASSERT(c == CONF, "this configuration"); return fallback_; }
MilterStatus milter_manager_configuration_get_fallback_status_at_disconnect(MilterManagerConfiguration *c) { VP_ASSERT(c == CONF, "this configuration"); return fallback_disconnect; }
gchar *milter_utils_get_enum_nick_name(GType t, gint v) { return g_strdup("state"); }
gchar *milter_utils_inspect_enum(GType t, gint v) { return g_strdup("state"); }

/* ------------------------------------------------------ the children's signals */
static struct { const char *n; GCallback f; } H_[32]; static int nH;
gulong g_signal_connect_data(gpointer inst, const gchar *name, GCallback f, gpointer data, GClosureNotify d, GConnectFlags fl)
{
    VP_ASSERT(inst == (gpointer)KIDS && data == (gpointer)LEADER && !(fl & G_CONNECT_SWAPPED), "the milters of this leader");
    VP_ASSERT(nH < 32, "model: handlers"); vp_assume(nH < 32);
    H_[nH].n = name; H_[nH].f = f;
    return ++nH;
}
guint g_signal_handlers_disconnect_matched(gpointer i, GSignalMatchType m, guint s, GQuark q, GClosure *c, gpointer f, gpointer d) { return 0; }
static GCallback handler(const char *name)
{
    int i; GCallback f = NULL;
    for (i = 0; i < nH; i++) if (vp_name_is(H_[i].n, name)) { VP_ASSERT(!f, "a decision is taken once"); f = H_[i].f; }
    VP_ASSERT(f, "no decision is missed");
    vp_assume(f != NULL);
    return f;
}
#define TELL(n) ((void (*)(gpointer, gpointer))handler(n))(KIDS, LEADER)

/* --------------------------------------------------------------- children */
static struct { int n, cmd; gconstpointer a, b; guint64 i; MilterManagerLeaderState s; } C_;
static int kids_ok, kids_reply, kids_error;
static GQuark kids_quark = 77;
GQuark milter_manager_children_error_quark(void) { return kids_quark; }
static gboolean child(MilterManagerChildren *k, int cmd, gconstpointer a, gconstpointer b, guint64 i)
{
    VP_ASSERT(k == KIDS, "the milters of this leader");
    C_.n++; C_.cmd = cmd; C_.a = a; C_.b = b; C_.i = i; C_.s = P->state;
    if (kids_error) {           /* no milter is left: an error, and no success */
        GError *e = vp_error("alive");
        e->domain = kids_quark;
        ((void (*)(gpointer, GError *, gpointer))handler("error"))(KIDS, e, LEADER);
        return FALSE;
    }
    if (kids_reply) TELL("continue");
    return kids_ok;
}
#define KK MilterManagerChildren *k
gboolean milter_manager_children_negotiate(KK, MilterOption *o, MilterMacrosRequests *m) { return child(k, 'O', o, m, 0); }
gboolean milter_manager_children_connect(KK, const gchar *h, struct sockaddr *a, socklen_t n) { return child(k, 'C', h, a, n); }
gboolean milter_manager_children_helo(KK, const gchar *f) { return child(k, 'H', f, NULL, 0); }
gboolean milter_manager_children_envelope_from(KK, const gchar *f) { return child(k, 'M', f, NULL, 0); }
gboolean milter_manager_children_envelope_recipient(KK, const gchar *f) { return child(k, 'R', f, NULL, 0); }
gboolean milter_manager_children_data(KK) { return child(k, 'T', NULL, NULL, 0); }
gboolean milter_manager_children_unknown(KK, const gchar *f) { return child(k, 'U', f, NULL, 0); }
gboolean milter_manager_children_header(KK, const gchar *n, const gchar *v) { return child(k, 'L', n, v, 0); }
gboolean milter_manager_children_end_of_header(KK) { return child(k, 'N', NULL, NULL, 0); }
gboolean milter_manager_children_body(KK, const gchar *c, gsize n) { return child(k, 'B', c, NULL, n); }
gboolean milter_manager_children_end_of_message(KK, const gchar *c, gsize n) { return child(k, 'E', c, NULL, n); }
gboolean milter_manager_children_quit(KK) { VP_ASSERT(k == KIDS, "the milters of this leader"); n_quit++; return TRUE; }
gboolean milter_manager_children_abort(KK) { VP_ASSERT(k == KIDS && n_quit == 0, "the milters of this leader"); n_abort++; return TRUE; }
static int n_macro;
gboolean milter_manager_children_define_macro(KK, MilterCommand c, GHashTable *t) { VP_ASSERT(k == KIDS && c == 'M' && t == (GHashTable *)&loop_, "the macros are given to the milters"); n_macro++; return TRUE; }
gboolean milter_manager_children_is_waiting_reply(KK) { VP_ASSERT(k == KIDS, "the milters of this leader"); return waiting_; }
static int n_new, n_setup, n_tag; static GIOChannel *ch_r, *ch_w;
MilterManagerChildren *milter_manager_children_new(MilterManagerConfiguration *c, MilterEventLoop *l)
{ VP_ASSERT(c == CONF && l == (MilterEventLoop *)&loop_, "the milters work in this process"); n_new++; return KIDS; }
void milter_manager_configuration_setup_children(MilterManagerConfiguration *c, KK, MilterClientContext *x)
{ VP_ASSERT(c == CONF && k == KIDS && x == CTX, "the milters configured"); n_setup++; }
void milter_manager_children_set_tag(KK, guint t) { VP_ASSERT(k == KIDS && t == P->tag, "the milters of this leader"); n_tag++; }
void milter_manager_children_set_launcher_channel(KK, GIOChannel *r, GIOChannel *w) { VP_ASSERT(k == KIDS, "the milters of this leader"); ch_r = r; ch_w = w; }

static MilterManagerLeaderState state0; static gboolean sent0;
static void setup(void)
{
    vp_witness();
    vp_set_private(LEADER, milter_manager_leader_get_type(), P);
    vp_class_init(milter_manager_leader_get_type(), &klass_);
    P->configuration = CONF; P->client_context = CTX; P->children = KIDS;
    state0 = P->state = vp_below("state", 28);
    sent0 = P->sent_end_of_message = vp_bool("sent");
    P->processing = vp_bool("processing");
    fallback_ = vp_below("fallback", 14); fallback_disconnect = vp_below("fallback_disconnect", 14);
    fail_ = vp_bool("fail"); fail_with_error = vp_bool("why");
    connected_ = vp_bool("connected"); waiting_ = vp_bool("waiting");
    kids_ok = vp_bool("ok"); kids_reply = vp_bool("reply"); kids_error = vp_bool("error");
    setup_children_signals(LEADER, KIDS);
}
static void check_nothing_else(void)
{ VP_ASSERT(n_shutdown == 0 && n_finished == 0 && n_abort == 0 && n_quit == 0, "and nothing else"); }

#if defined(CASE_reply)
static void check_reply(MilterStatus s)
{
    if (state0 == ST(NEGOTIATE)) { VP_ASSERT(n_negotiated == 1 && n_reply == 0 && reply_status == (int)s, "the negotiation is answered"); VP_REACH("negotiation"); }
    else if (response_of(state0)) {
        VP_ASSERT(n_reply == 1 && n_negotiated == 0 && reply_status == (int)s, "the decision is the answer to the open command");
        VP_ASSERT(P->state == next_of(state0), "the command is answered");
        VP_REACH("answer");
    } else if (state0 == ST(QUIT)) ;            /* no answer to it: not asked */
    else { VP_ASSERT(n_reply == 0 && n_negotiated == 0 && n_error >= 1 && P->state == state0, "without an open command there is no answer"); VP_REACH("no command"); }
    VP_ASSERT(P->sent_end_of_message == sent0 && M_.n == 0, "and nothing else");
    check_nothing_else();
}
int vp_main(void)
{
    const char *ext = vp_bool("ext") ? vp_cstr("ext") : NULL, *text = vp_bool("text") ? vp_cstr("text") : NULL;
    guint code = 400 + vp_below("code", 200);
    setup();
    vp_assume(state0 != ST(QUIT));
    switch (WHAT) {
    case 0: TELL("continue"); check_reply(MILTER_STATUS_CONTINUE); break;
    case 1: TELL("temporary-failure"); check_reply(MILTER_STATUS_TEMPORARY_FAILURE); break;
    case 2: TELL("reject"); check_reply(MILTER_STATUS_REJECT); break;
    case 3: TELL("accept"); check_reply(MILTER_STATUS_ACCEPT); break;
    case 4: TELL("discard"); check_reply(MILTER_STATUS_DISCARD); break;
    case 5: TELL("skip"); check_reply(MILTER_STATUS_SKIP); break;
    case 6:
        ((void (*)(gpointer, guint, const gchar *, const gchar *, gpointer))handler("reply-code"))(KIDS, code, ext, text, LEADER);
        check_reply(code < 500 ? MILTER_STATUS_TEMPORARY_FAILURE : MILTER_STATUS_REJECT);
        VP_ASSERT(n_set == 1 && set_code == code && set_ext == ext && set_text == text, "with its reply code");
        VP_ASSERT(VP_IMPLIES(fail_, n_error >= 1 && reset_before_set == 1), "a wrong reply code is an error and replaces no other");
        break;
    }
    if (WHAT == 1 || WHAT == 2) VP_ASSERT(n_reset >= 1 && n_set == 0, "a refusal without reply code has none");
    return 0;
}
#elif defined(CASE_command)
int vp_main(void)
{
    const char *a = vp_cstr("a"), *b = vp_cstr("b"); static int addr; guint32 n = vp_u32("n"); MilterStatus s = 0;
    static const MilterManagerLeaderState states[] = { ST(CONNECT), ST(HELO), ST(ENVELOPE_FROM), ST(ENVELOPE_RECIPIENT), ST(DATA), ST(UNKNOWN), ST(HEADER), ST(END_OF_HEADER), ST(BODY), ST(END_OF_MESSAGE) };
    static const char cmds[] = "CHMRTULNBE"; gboolean kids; int pending = 0;
    gconstpointer wa = a, wb = NULL; guint64 wi = 0;
    setup();
    if (WHAT == 9) {
        /* the MTA waits for its answers, except that the end of the message may come while a body is open */
        vp_assume(is_replied_state(state0) || state0 == ST(BODY));
        pending = state0 == ST(BODY);
    }
    kids = vp_bool("children");
    if (!kids) P->children = NULL;
    switch (WHAT) {
    case 0: s = milter_manager_leader_connect(LEADER, a, (struct sockaddr *)&addr, n); wb = &addr; wi = n; break;
    case 1: s = milter_manager_leader_helo(LEADER, a); break;
    case 2: s = milter_manager_leader_envelope_from(LEADER, a); break;
    case 3: s = milter_manager_leader_envelope_recipient(LEADER, a); break;
    case 4: s = milter_manager_leader_data(LEADER); wa = NULL; break;
    case 5: s = milter_manager_leader_unknown(LEADER, a); break;
    case 6: s = milter_manager_leader_header(LEADER, a, b); wb = b; break;
    case 7: s = milter_manager_leader_end_of_header(LEADER); wa = NULL; break;
    case 8: s = milter_manager_leader_body(LEADER, a, n); wi = n; break;
    case 9: s = milter_manager_leader_end_of_message(LEADER, a, n); wi = n; break;
    }
    check_nothing_else();
    VP_ASSERT(n_negotiated == 0 && M_.n == 0, "and nothing else");
    if (!kids) { VP_ASSERT(s == fallback_ && n_reply == 0 && C_.n == 0, "without milters the fallback status is the answer"); VP_REACH("no milters"); return 0; }
    VP_ASSERT(C_.n == 1 && C_.cmd == cmds[WHAT] && C_.a == wa && C_.b == wb && C_.i == wi, "the command is given to the milters once, with its arguments");
    VP_ASSERT(C_.s == (pending ? state0 : states[WHAT]), "it is the open command");
    VP_ASSERT(n_reply == (kids_error || kids_reply), "answers that are given at once are given");
#if WHAT == 9
    if (pending) {
        VP_ASSERT(P->sent_end_of_message, "the end of the message is open next");
        if (n_reply) { VP_ASSERT(P->state == ST(END_OF_MESSAGE), "the end of the message is open next"); VP_REACH("pending"); }
        else VP_ASSERT(P->state == ST(BODY), "the body is open");
        return 0;
    }
#endif
    if (kids_error || kids_reply || !kids_ok) {
        VP_ASSERT(n_reply + (s != MILTER_STATUS_PROGRESS) == 1 || (!n_reply && fallback_ == MILTER_STATUS_PROGRESS), "a command is answered once");
        if (!n_reply) { VP_ASSERT(s == fallback_, "a command that no milter gets is answered with the fallback status"); VP_REACH("fallback"); }
        else { VP_ASSERT(reply_status == (kids_error ? (int)fallback_ : (int)MILTER_STATUS_CONTINUE), "with its answer"); VP_REACH("answered"); }
    } else {
        VP_ASSERT(s == MILTER_STATUS_PROGRESS && P->state == states[WHAT], "the command is open until the milters decide");
        VP_REACH("open");
    }
    return 0;
}
#elif defined(CASE_change)
int vp_main(void)
{
    const char *a = vp_cstr("a"), *b = vp_bool("b") ? vp_cstr("b") : NULL; guint32 i = vp_u32("i");
    static const char kinds[] = "himne+-bqp"; gconstpointer wa = a, wb = NULL; guint64 wi = 0;
    setup();
    switch (WHAT) {
    case 0: ((void (*)(gpointer, const gchar *, const gchar *, gpointer))handler("add-header"))(KIDS, a, b, LEADER); wb = b; break;
    case 1: ((void (*)(gpointer, guint32, const gchar *, const gchar *, gpointer))handler("insert-header"))(KIDS, i, a, b, LEADER); wb = b; wi = i; break;
    case 2: ((void (*)(gpointer, const gchar *, guint32, const gchar *, gpointer))handler("change-header"))(KIDS, a, i, b, LEADER); wb = b; wi = i; break;
    case 3: ((void (*)(gpointer, const gchar *, guint32, gpointer))handler("delete-header"))(KIDS, a, i, LEADER); wi = i; break;
    case 4: ((void (*)(gpointer, const gchar *, const gchar *, gpointer))handler("change-from"))(KIDS, a, b, LEADER); wb = b; break;
    case 5: ((void (*)(gpointer, const gchar *, const gchar *, gpointer))handler("add-recipient"))(KIDS, a, b, LEADER); wb = b; break;
    case 6: ((void (*)(gpointer, const gchar *, gpointer))handler("delete-recipient"))(KIDS, a, LEADER); break;
    case 7: ((void (*)(gpointer, const gchar *, gsize, gpointer))handler("replace-body"))(KIDS, a, i, LEADER); wi = i; break;
    case 8: ((void (*)(gpointer, const gchar *, gpointer))handler("quarantine"))(KIDS, a, LEADER); break;
    case 9: TELL("progress"); wa = NULL; break;
    }
    VP_ASSERT(M_.n == 1 && M_.kind == kinds[WHAT] && M_.a == wa && M_.b == wb && M_.i == wi, "what a milter changes is changed once, as it said");
    VP_ASSERT(n_reply == 0 && n_negotiated == 0 && P->state == state0, "a change is not an answer");
    if (WHAT < 8) VP_ASSERT(n_error == (fail_ && fail_with_error), "a change that fails is an error");
    check_nothing_else();
    VP_REACH("change");
    return 0;
}
#elif defined(CASE_negotiate)
static GIOChannel chan_[2];
int vp_main(void)
{
    static int o, m; MilterStatus s; int i, k;
    static const char *names[] = { "negotiate-reply", "continue", "reply-code", "temporary-failure", "reject", "accept", "discard", "add-header", "insert-header", "change-header",
        "delete-header", "change-from", "add-recipient", "delete-recipient", "replace-body", "progress", "quarantine", "skip", "abort", "error", "finished" };
    setup();
    nH = 0; P->children = NULL; kids_reply = 0; kids_error = 0;
    P->launcher_read_channel = &chan_[0]; P->launcher_write_channel = &chan_[1]; P->tag = 5;
    s = milter_manager_leader_negotiate(LEADER, (MilterOption *)&o, (MilterMacrosRequests *)&m);
    VP_ASSERT(P->children == KIDS && n_new == 1 && n_setup == 1 && n_tag == 1 && ch_r == &chan_[0] && ch_w == &chan_[1], "the milters configured are asked");
    for (i = 0; i < 21; i++) handler(names[i]);
    VP_ASSERT(C_.n == 1 && C_.cmd == 'O' && C_.a == &o && C_.b == &m && C_.s == ST(NEGOTIATE), "the negotiation is given to the milters");
    VP_ASSERT(s == (kids_ok ? MILTER_STATUS_PROGRESS : fallback_) && n_negotiated == 0, "and is open");
    ((void (*)(gpointer, gpointer, gpointer, gpointer))handler("negotiate-reply"))(KIDS, &m, &o, LEADER);
    VP_ASSERT(n_negotiated == 1 && n_reply == 0 && neg_option == &m && neg_requests == &o && reply_status == MILTER_STATUS_CONTINUE, "what the milters negotiated is the answer");
    VP_ASSERT(P->processing, "a session that is negotiated is watched");
    VP_REACH("negotiated");
    return 0;
}
#elif defined(CASE_end)
/* commands without an answer, and the end */
int vp_main(void)
{
    int what = vp_below("what", 6); MilterStatus s; gboolean kids, proc0;
    setup();
    kids = vp_bool("children"); proc0 = P->processing;
    if (!kids) P->children = NULL;
    if (what == 0) {
        s = milter_manager_leader_quit(LEADER);
        VP_ASSERT(n_quit == kids && n_abort == 0 && P->state == ST(QUIT) && VP_IMPLIES(kids, s == MILTER_STATUS_DEFAULT), "the milters are told to quit");
    } else if (what == 1) {
        s = milter_manager_leader_abort(LEADER);
        VP_ASSERT(n_abort == kids && n_quit == 0 && P->state == ST(ABORT) && VP_IMPLIES(kids, s == MILTER_STATUS_DEFAULT), "the milters are told to abort the message");
    } else if (what == 2) {
        milter_manager_leader_define_macro(LEADER, 'M', (GHashTable *)&loop_);
        VP_ASSERT(n_macro == kids && P->state == state0, "the macros are given to the milters");
    } else if (what == 3) {
        milter_manager_leader_timeout(LEADER);
        VP_ASSERT(n_quit == kids, "a silent MTA ends the session of the milters");
    } else if (what == 4) {
        TELL("abort");
        VP_ASSERT(n_shutdown == 1 && n_finished == 1, "a session that is given up is cut off");
    } else {
        TELL("finished");
        VP_ASSERT(n_finished == 1 && n_shutdown == 0, "the session ends with its milters");
        finished(MILTER_FINISHED_EMITTABLE(LEADER));
        VP_ASSERT(!P->processing, "an ended session is not watched");
    }
    VP_ASSERT(n_reply == 0 && n_negotiated == 0 && M_.n == 0 && C_.n == 0, "no answer");
    VP_ASSERT(VP_IMPLIES(what < 5, P->processing == proc0), "and nothing else");
    VP_REACH("end");
    return 0;
}
#elif defined(CASE_error)
int vp_main(void)
{
    GError *e; int mine = vp_bool("mine");
    setup();
    vp_assume(state0 != ST(QUIT));
    e = vp_error("x"); e->domain = mine ? kids_quark : kids_quark + 1;
    ((void (*)(gpointer, GError *, gpointer))handler("error"))(KIDS, e, LEADER);
    VP_ASSERT(n_error >= 1, "an error of the milters is reported");
    if (!mine) { VP_ASSERT(n_error == 1 && n_reply == 0 && n_negotiated == 0 && P->state == state0, "the error of one milter is not an answer"); VP_REACH("one milter"); }
    else if (response_of(state0)) { VP_ASSERT(n_reply == 1 && reply_status == (int)fallback_ && P->state == next_of(state0), "without any milter the fallback status is the answer"); VP_REACH("fallback"); }
    return 0;
}
#elif defined(CASE_check_connection)
int vp_main(void)
{
    gboolean ok, skip, kids;
    setup();
    vp_assume(state0 != ST(QUIT));
    kids = vp_bool("children");
    if (!kids) P->children = NULL;
    skip = !P->processing || (kids && !waiting_);
    ok = milter_manager_leader_check_connection(LEADER);
    if (skip) { VP_ASSERT(ok && n_check == 0 && n_reply == 0 && n_abort == 0 && P->state == state0, "only a session that waits for its milters is checked"); VP_REACH("skip"); return 0; }
    VP_ASSERT(n_check == 1 && ok == connected_, "the session is checked");
    if (connected_) { VP_ASSERT(n_reply == 0 && n_abort == 0 && n_quit == 0 && P->state == state0, "a session that lives goes on"); VP_REACH("lives"); return 0; }
    VP_ASSERT(n_abort == kids && n_quit == kids, "the milters of a client that has gone are told");
    if (response_of(state0)) { VP_ASSERT(n_reply == 1 && reply_status == (int)fallback_disconnect, "and the open command is answered as configured"); VP_REACH("gone"); }
    return 0;
}
#endif
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
