/* TUS: milter/core/milter-protocol.c milter/core/milter-option.c */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_connect 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_connect 1 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_connect 2 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_helo 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_helo 1 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_helo 2 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_envelope_from 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_envelope_from 1 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_envelope_from 2 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_envelope_recipient 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_envelope_recipient 1 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_envelope_recipient 2 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_data 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_data 1 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_data 2 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_unknown 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_unknown 1 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_unknown 2 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_define_macro 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_check_alive 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_check_processing_message 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_abort 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_abort 1 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_quit 0 */
/* CUT: milter/manager/milter-manager-children.c init_command_waiting_child_queue 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_negotiate 0 */
/* CUT: milter/manager/milter-manager-children.c milter_manager_children_negotiate 1 */
/* CUT: milter/manager/milter-manager-children.c check_fallback_status_on_negotiate 0 */
/* CUT: milter/manager/milter-manager-children.c check_fallback_status_on_negotiate 1 */
/* Contracts of the functions that hand the MTA's commands to all milters
 * (milter-manager-children.c).
 *
 *  A    the list of milters has any length: K[0] is the arbitrary witness (it
 *       may be absent), K[1] stands for whatever other milter a loop visits;
 *       every loop over the list is cut by its invariant
 *  B/N  up to three concrete milters */
#ifdef VP_A
#define VP_OWN_GLIST_COPY 1
#endif
#define VP_EXPECT_SENDABLE 1
static int sendable(int i);
#include "vp_children.h"

static Kid Z[NK];                       /* the milters as they were */
static MilterServerContextState S;
static MilterCommand cmd_;
static const char *text_; static void *addr_; static socklen_t addr_len; static GHashTable *macros_;
static int have_w, n_milters, all_expired;

/* who is told about the command */
static int wanted(const Kid *k)
{
#if defined(CASE_data)
    return handling(k) && k->accepted;
#elif defined(CASE_envelope_recipient)
    return handling(k);
#elif defined(CASE_define_macro)
    switch (cmd_) {
    case MILTER_COMMAND_CONNECT: case MILTER_COMMAND_HELO: return k->negotiated;
    case MILTER_COMMAND_ENVELOPE_FROM: case MILTER_COMMAND_UNKNOWN: return alive(k);
    default: return handling(k);
    }
#elif defined(CASE_waiting_children)
    return handling(k) && k->accepted;
#else
    return alive(k);
#endif
}
static int dropped(const Kid *k)
{
#if defined(CASE_data) || defined(CASE_waiting_children)
    return handling(k) && !k->accepted;
#elif defined(CASE_abort)
    return handling(k) || k->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM;
#else
    return 0;
#endif
}
static int sendable(int i) { return wanted(&Z[i]); }
#ifndef VP_A
static void answer_now(Kid *k)
{
    k->sync = vp_bool("sync");
    if (k->sync) { k->state = S; cb_continue((MilterServerContext *)k, C); }
}
#endif
static int n_counted[NK];               /* counted as continue without being asked to reply */

MilterMacrosRequests *milter_macros_requests_new(void) { return (MilterMacrosRequests *)&c_obj.o[2]; }
static int merged_macros; static gpointer merged_arg;
void milter_macros_requests_merge(MilterMacrosRequests *d, MilterMacrosRequests *s)
{ VP_ASSERT(d == (MilterMacrosRequests *)&c_obj.o[2], "requests are collected for the session"); merged_macros++; merged_arg = s; }
void milter_protocol_agent_set_macros_hash_table(MilterProtocolAgent *a, MilterCommand c, GHashTable *m)
{ Kid *k = kid(a); VP_ASSERT(m == macros_ && c == cmd_, "the macros given are passed on"); k->n_macros++; }
static int privilege_, n_retry;
gboolean milter_manager_configuration_is_privilege_mode(MilterManagerConfiguration *c) { return privilege_; }
#ifdef VP_A
/* contracts of starting a milter and of trying it again */
gboolean gh_start(MilterManagerChildren *c, MilterManagerChild *k)
{ VP_ASSERT(c == C && privilege_, "a milter is started only if the manager may do so"); return any_bool("started"); }
void gh_retry(MilterManagerChild *k, MilterOption *o, MilterManagerChildren *c, gboolean retry)
{ if ((gpointer)k == (gpointer)&K[0]) n_retry++; }
#endif
static const Ev *neg_reply; static guint neg_step, neg_action, neg_version; static int n_abort_session;
static void vp_modification(const Ev *e)
{
    if (e->id == EV_NEGOTIATE_REPLY) {
        VP_ASSERT(e->p0 == (gpointer)P->option && e->p1 == (gpointer)P->macros_requests, "the merged options are the reply");
        neg_step = milter_option_get_step(P->option); neg_action = milter_option_get_action(P->option);
        neg_version = milter_option_get_version(P->option);
    } else { VP_ASSERT(e->id == EV_ABORT, "nothing else is said"); n_abort_session++; }
}

#ifdef VP_A
/* ---- lists of any length ---- */
typedef struct { GList n[3]; } GL;      /* any node before W, W, any node after W */
static GL M, T;
static GList *M_head, *T_head; static int T_w, T_n;
static int cut_seen, phase_sent;
static void fresh_other(void)
{
    any_kid(1); Z[1] = K[1];
}
/* an arbitrary position (0: the beginning) of the list */
static GList *gl_any(GL *l, int w, int begin)
{
    int p = vp_below("position", 4);
    l->n[0].data = l->n[2].data = &K[1]; l->n[1].data = &K[0];
    l->n[0].next = vp_bool("more") ? &l->n[0] : w ? &l->n[1] : vp_bool("end") ? NULL : &l->n[0];
    l->n[1].next = vp_bool("more") ? &l->n[2] : NULL;
    l->n[2].next = vp_bool("more") ? &l->n[2] : NULL;
    if (!w) vp_assume(p == 0 || p == 3);
    else if (begin) vp_assume(p <= 1);
    return p == 3 ? NULL : &l->n[p];
}
static int behind_w(GL *l, GList *n, int w) { return w && (n == NULL || n == &l->n[2]); }
GList *g_list_copy(GList *l)
{
    if (l == M_head && l) return l;     /* the copy has the same members */
    VP_ASSERT(l == P->reply_queue->head, "model: which list is copied");
    T_w = q_w; T_n = q_others + q_w; cut_seen = 0;
    T_head = T_n ? gl_any(&T, T_w, 1) : NULL;
    if (T_n) vp_assume(T_head != NULL);
    return T_head;
}
/* before W nothing, at and after W everything that is to happen to it */
static void iterate(int *phase, GList **node, GL *l, GList *head, int w)
{
    if (*phase == 0) { VP_ASSERT(*node == head, "every milter is considered"); *node = gl_any(l, w, 0); fresh_other(); }
    else vp_assume(0);
    (*phase)++;
}
#define VISITED(l, w) behind_w(l, *node, w)
static int did;
/* who is asked: loop over all milters */
void vp_cut_collect(int *phase, GList **node)
{
    int v = VISITED(&M, have_w);
    q_is(P->reply_queue);
    VP_ASSERT(q_w == (v && wanted(&Z[0])) && K[0].n_abort == (v && dropped(&Z[0])), "the answer of every milter that takes part is awaited");
    VP_ASSERT(K[0].n_sent == 0 && K[0].n_quit == 0, "nobody is asked before all are known");
    iterate(phase, node, &M, M_head, have_w);
    v = VISITED(&M, have_w);
    q_w = v && wanted(&Z[0]); K[0].n_abort = v && dropped(&Z[0]); K[0].pm = Z[0].pm && !K[0].n_abort;
    q_others = nondet_vp_u32() & 0xffff;
    q_sync(P->reply_queue);
}
/* everyone is asked */
static void vp_expect(Kid *k);
#define COUNTS(v) ((v) && !Z[0].need_reply && !K[0].sync)
void vp_cut_send(int *phase, GList **node, gboolean *success)
{
    int v = VISITED(&T, T_w);
    VP_ASSERT(K[0].n_sent == v && (!v || *success), "every milter is asked once");
    VP_ASSERT(n_counted[0] == 0, "nobody answers before all are asked");
    iterate(phase, node, &T, T_head, T_w);
    vp_assume(wanted(&K[1]));
    v = VISITED(&T, T_w);
    K[0].n_sent = v; K[0].sync = FALSE; if (v) { vp_expect(&K[0]); K[0].sync = vp_bool("sync"); }
    q_w = T_w && !K[0].sync; q_others = nondet_vp_u32() & 0xffff; q_sync(P->reply_queue);
    *success = vp_bool("success"); vp_assume(*success || !v);
    phase_sent = 0;
    if (*node == NULL) phase_sent = 1;
}
/* who does not reply counts as continue */
void vp_cut_count(int *phase, GList **node)
{
    int v = VISITED(&T, T_w);
    VP_ASSERT(n_counted[0] == COUNTS(v), "a milter that does not reply counts as continue, once");
    VP_ASSERT(status_for(S) == MILTER_STATUS_CONTINUE || (status_for(S) == MILTER_STATUS_NOT_CHANGE && !n_counted[0]), "no answer means continue");
    iterate(phase, node, &T, T_head, T_w);
    v = VISITED(&T, T_w);
    n_counted[0] = COUNTS(v);
    if (n_counted[0] || vp_bool("counted"))
        g_hash_table_insert(P->reply_statuses, GINT_TO_POINTER(S), GINT_TO_POINTER(MILTER_STATUS_CONTINUE));
    q_w = T_w && !K[0].sync && !n_counted[0]; q_others = nondet_vp_u32() & 0xffff;
    q_sync(P->reply_queue);
}
MilterStatus gh_remove(MilterManagerChildren *c, MilterServerContext *k)
{
    int i = kid(k) - K;
    VP_ASSERT(c == C && phase_sent, "nobody answers before all are asked");
    VP_ASSERT(status_for(S) == MILTER_STATUS_CONTINUE, "no answer means continue");
    n_counted[i]++;
    if (i == 0) { VP_ASSERT(q_w, "an awaited milter"); q_w = 0; q_sync(P->reply_queue); }
    return MILTER_STATUS_CONTINUE;
}
static void answer_now(Kid *k)
{
    k->sync = vp_bool("sync");
    if (k->sync && k == &K[0]) { VP_ASSERT(q_w, "an awaited milter"); q_w = 0; q_sync(P->reply_queue); }
}
/* ---- contracts of check_alive and check_processing_message ---- */
static int someone;
gboolean gh_alive(MilterManagerChildren *c)
{ someone = any_bool("someone"); vp_assume(someone || !have_w || !alive(&K[0]) || all_expired); vp_assume(!all_expired || !someone); if (!someone && !all_expired) n_error++; return someone; }
gboolean gh_handling(MilterManagerChildren *c)
{ someone = any_bool("someone"); vp_assume(someone || !have_w || !handling(&K[0])); if (!someone) n_error++; return someone; }
void vp_cut_macro(int *phase, GList **node)
{
    int v = VISITED(&M, have_w);
    VP_ASSERT(K[0].n_macros == (v && wanted(&Z[0])), "macros go once to each milter that gets the command");
    iterate(phase, node, &M, M_head, have_w);
    K[0].n_macros = VISITED(&M, have_w) && wanted(&Z[0]);
}
void vp_cut_exists(int *phase, GList **node)
{
    int v = VISITED(&M, have_w);
#ifdef CASE_check_processing
    VP_ASSERT(!(v && handling(&Z[0])), "no milter skipped");
#else
    VP_ASSERT(!(v && alive(&Z[0])), "no milter skipped");
#endif
    iterate(phase, node, &M, M_head, have_w);
#ifdef CASE_check_processing
    vp_assume(!(VISITED(&M, have_w) && handling(&Z[0])));
#else
    vp_assume(!(VISITED(&M, have_w) && alive(&Z[0])));
#endif
}
void vp_cut_abort(int *phase, GList **node)
{
    int v = VISITED(&M, have_w);
    VP_ASSERT(K[0].n_abort == (v && dropped(&Z[0])) && K[0].n_reset == 0, "every milter handling the message is told to abort, once");
    iterate(phase, node, &M, M_head, have_w);
    K[0].n_abort = VISITED(&M, have_w) && dropped(&Z[0]);
    K[0].pm = Z[0].pm && !K[0].n_abort;
}
void vp_cut_reset(int *phase, GList **node)
{
    int v = VISITED(&M, have_w);
    VP_ASSERT(K[0].n_reset == (v && alive(&Z[0])) && K[0].n_abort == (have_w && dropped(&Z[0])), "every milter forgets the message");
    iterate(phase, node, &M, M_head, have_w);
    K[0].n_reset = VISITED(&M, have_w) && alive(&Z[0]);
    if (K[0].n_reset) K[0].pm = FALSE;
}
#define QUITS(k) (alive(k) && (k)->state != MILTER_SERVER_CONTEXT_STATE_QUIT)
void vp_cut_quit(int *phase, GList **node)
{
    int v = VISITED(&M, have_w);
    VP_ASSERT(K[0].n_quit == (v && QUITS(&Z[0])), "every milter still there is told to quit, once");
    iterate(phase, node, &M, M_head, have_w);
    K[0].n_quit = VISITED(&M, have_w) && QUITS(&Z[0]);
    K[0].quitted = Z[0].quitted || K[0].n_quit;
}
/* the list built by init_command_waiting_child_queue: what happened to W */
static int waiting_w; static GList waiting_;
GList *gh_append(GList *l, gpointer d)
{
    if (l != P->command_waiting_child_queue || (d != (gpointer)&K[0] && d != (gpointer)&K[1])) {
        static GList cn[2]; static int k;
        VP_ASSERT(GPOINTER_TO_INT(d) == cmd_, "the command is remembered");
        cn[k].data = d;
        return &cn[k++];
    }
    if (d == (gpointer)&K[0]) waiting_w++;
    return &waiting_;
}
void vp_cut_waiting(int *phase, GList **node)
{
    int v = VISITED(&M, have_w);
    VP_ASSERT(waiting_w == (v && wanted(&Z[0])) && K[0].n_abort == (v && dropped(&Z[0])), "every milter handling the message for an accepted recipient gets it; the others are told to abort");
    iterate(phase, node, &M, M_head, have_w);
    v = VISITED(&M, have_w);
    waiting_w = v && wanted(&Z[0]); K[0].n_abort = v && dropped(&Z[0]); K[0].pm = Z[0].pm && !K[0].n_abort;
    P->command_waiting_child_queue = waiting_w || vp_bool("waiting") ? &waiting_ : NULL;
}
/* negotiation */
void vp_cut_neg_queue(int *phase, GList **node)
{
    q_is(P->reply_queue);
    VP_ASSERT(q_w == VISITED(&M, have_w), "every milter negotiates");
    iterate(phase, node, &M, M_head, have_w);
    q_w = VISITED(&M, have_w); q_others = nondet_vp_u32() & 0xffff; q_sync(P->reply_queue);
}
void vp_cut_neg_connect(int *phase, GList **node)
{
    VP_ASSERT(K[0].n_established == VISITED(&M, have_w), "every milter is connected to, once");
    VP_ASSERT(n_retry <= K[0].n_established, "a milter that cannot be reached is tried again once");
    iterate(phase, node, &M, M_head, have_w);
    K[0].n_established = VISITED(&M, have_w);
    n_retry = K[0].n_established && any_bool("retry");
}
gboolean gh_establish(MilterManagerChild *c, MilterOption *o, MilterManagerChildren *s, gboolean retry)
{
    VP_ASSERT(o == P->option && s == C && !retry, "every milter is offered the options of the MTA");
    kid(c)->n_established++;
    if (any_bool("established")) return TRUE;
    if ((gpointer)c == (gpointer)&K[0]) n_retry++;      /* its contract: a retry is prepared */
    return FALSE;
}
static MilterStatus bound_;
static int counts(const Kid *k) { return !k->negotiated && rank_of(k->fallback) > 3; }
static int worst_seen, other_now;      /* some milter has the status bound_, unless that is continue: has it been considered? */
void vp_cut_fb_max(int *phase, GList **node, MilterStatus *status)
{
    int v = VISITED(&M, have_w);
    VP_ASSERT(rank_of(*status) >= 3 && VP_IMPLIES(v && counts(&Z[0]), rank_of(*status) >= rank_of(Z[0].fallback)) &&
              rank_of(*status) <= rank_of(bound_), "the worst fallback status of the milters that did not negotiate");
    if (other_now && counts(&K[1]) && rank_of(K[1].fallback) == rank_of(bound_)) worst_seen = 1;
    VP_ASSERT(!worst_seen || rank_of(*status) == rank_of(bound_), "the worst fallback status is not forgotten");
    iterate(phase, node, &M, M_head, have_w);
    other_now = *node && *node != &M.n[1];
    worst_seen = any_bool("worst seen");
    if (*node == NULL) vp_assume(worst_seen || rank_of(bound_) == 3 || (have_w && counts(&Z[0]) && rank_of(Z[0].fallback) == rank_of(bound_)));
    vp_assume(!counts(&K[1]) || rank_of(K[1].fallback) <= rank_of(bound_));
    v = VISITED(&M, have_w);
    *status = any_status("status");
    vp_assume(rank_of(*status) >= 3 && VP_IMPLIES(v && counts(&Z[0]), rank_of(*status) >= rank_of(Z[0].fallback)) &&
              rank_of(*status) <= rank_of(bound_));
    vp_assume(!worst_seen || rank_of(*status) == rank_of(bound_));
}
void vp_cut_fb_expire(int *phase, GList **node)
{
    VP_ASSERT(K[0].n_gone == (VISITED(&M, have_w) && Z[0].negotiated), "every negotiated milter is given up");
    VP_ASSERT(!K[0].n_gone || P->all_expired_as_fallback_on_negotiated, "the session knows that it is over");
    iterate(phase, node, &M, M_head, have_w);
    K[0].n_gone = VISITED(&M, have_w) && Z[0].negotiated;
    P->all_expired_as_fallback_on_negotiated = K[0].n_gone || vp_bool("expired");
}
#endif

static void vp_expect(Kid *k)
{
    k->sent = cmd_; k->arg = text_; k->arg2 = addr_; k->size = addr_len;
}
static void check_sent(int i, int asked)
{
    Kid e = Z[i];
    VP_ASSERT(K[i].n_sent == (asked ? 1 : 0), "every milter that takes part is asked exactly once, no other is");
    if (!asked) return;
    vp_expect(&e);
    VP_ASSERT(K[i].sent == e.sent && K[i].arg == e.arg && K[i].arg2 == e.arg2 && K[i].size == e.size, "with the arguments given");
}

static void setup(void)
{
    int i;
    C = (MilterManagerChildren *)&c_obj;
    P = &priv_;
    vp_set_private(C, MILTER_TYPE_MANAGER_CHILDREN, P);
    milter_manager_children_init(C);
    for (i = 0; i < NK; i++) { any_kid(i); Z[i] = K[i]; }
    P->state = P->processing_state = MILTER_SERVER_CONTEXT_STATE_START + vp_below("s", 14);
    all_expired = P->all_expired_as_fallback_on_negotiated = any_bool("expired");
    P->reply_code = vp_u32("code");
    P->emitted_reply_for_message_oriented_command = any_bool("replied");
#ifdef VP_A
    have_w = any_bool("have w");
    P->milters = M_head = gl_any(&M, have_w, 1);
    fresh_other();
    q_w = any_bool("stale"); q_others = vp_u32("stale"); vp_assume(q_others < 0x7fffffff); q_sync(P->reply_queue);
#else
    n_milters = vp_below("milters", NK + 1);
    have_w = n_milters > 0;
    for (i = 0; i < n_milters; i++) P->milters = g_list_append(P->milters, &K[i]);
    if (have_w && any_bool("stale")) g_queue_push_tail(P->reply_queue, &K[0]);
#endif
}
static int anyone(int (*f)(const Kid *))
{
#ifdef VP_A
    return someone;
#else
    int i;
    for (i = 0; i < n_milters; i++) if (f(&Z[i])) return 1;
    return 0;
#endif
}

#if defined(CASE_connect) || defined(CASE_helo) || defined(CASE_envelope_from) || defined(CASE_envelope_recipient) || defined(CASE_data) || defined(CASE_unknown)
static void fanout(void)
{
    gboolean ok; int go, i, none = 1;
    setup();
    text_ = vp_cstr("text");
#if defined(CASE_connect)
    S = MILTER_SERVER_CONTEXT_STATE_CONNECT; cmd_ = MILTER_COMMAND_CONNECT;
    addr_len = vp_below("address", 29); addr_ = vp_block("address", addr_len);
    ok = milter_manager_children_connect(C, text_, addr_, addr_len);
    go = anyone(alive) && !all_expired;
    VP_ASSERT(P->smtp_client_address_length == addr_len && (!addr_len || P->smtp_client_address != addr_), "the client's address is kept as a copy");
#elif defined(CASE_helo)
    S = MILTER_SERVER_CONTEXT_STATE_HELO; cmd_ = MILTER_COMMAND_HELO;
    ok = milter_manager_children_helo(C, text_);
    go = anyone(alive) && !all_expired;
#elif defined(CASE_envelope_from)
    S = MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM; cmd_ = MILTER_COMMAND_ENVELOPE_FROM;
    { int i; for (i = MILTER_SERVER_CONTEXT_STATE_HEADER; i <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE; i++)
        if (any_bool("old")) g_hash_table_insert(P->reply_statuses, GINT_TO_POINTER(i), GINT_TO_POINTER(any_status("old status"))); }
    ok = milter_manager_children_envelope_from(C, text_);
    go = anyone(alive) && !all_expired;
    if (go) { int i; for (i = MILTER_SERVER_CONTEXT_STATE_HEADER; i <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE; i++)
        VP_ASSERT(status_for(i) == MILTER_STATUS_NOT_CHANGE, "answers about an earlier message are forgotten"); }
#elif defined(CASE_envelope_recipient)
    S = MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT; cmd_ = MILTER_COMMAND_ENVELOPE_RECIPIENT;
    ok = milter_manager_children_envelope_recipient(C, text_);
    go = anyone(handling);
#elif defined(CASE_data)
    S = MILTER_SERVER_CONTEXT_STATE_DATA; cmd_ = MILTER_COMMAND_DATA; text_ = NULL;
    ok = milter_manager_children_data(C);
    go = anyone(handling);
#elif defined(CASE_unknown)
    S = MILTER_SERVER_CONTEXT_STATE_UNKNOWN; cmd_ = MILTER_COMMAND_UNKNOWN;
    ok = milter_manager_children_unknown(C, text_);
    go = anyone(alive) && !all_expired;
#endif
    if (!go) {
        VP_ASSERT(!ok && K[0].n_sent == 0 && n_reply == 0, "without milters nothing is sent");
        VP_ASSERT(K[0].n_abort == 0 && n_error == !(all_expired && S != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT && S != MILTER_SERVER_CONTEXT_STATE_DATA), "the lack of milters is reported");
        VP_REACH("no milter");
        return;
    }
    VP_ASSERT(P->state == S && P->processing_state == S, "the command being processed is known");
    VP_ASSERT(P->reply_code == 0, "a reply code given for another command is not used");
    if (have_w) {
        VP_ASSERT(!wanted(&Z[0]) || ok, "asking a milter is a success");
        check_sent(0, wanted(&Z[0]));
        VP_ASSERT(K[0].n_abort == dropped(&Z[0]), "a milter without accepted recipient drops the message");
#ifdef VP_A
        VP_ASSERT(q_w == (wanted(&Z[0]) && Z[0].need_reply && !K[0].sync), "exactly the answers that will come are awaited");
        VP_ASSERT(n_counted[0] == COUNTS(wanted(&Z[0])), "who does not answer counts as continue");
#endif
    }
    VP_ASSERT(K[0].n_quit == 0, "nobody is told to quit");
#ifdef VP_A
    VP_ASSERT(status_for(S) == MILTER_STATUS_CONTINUE || (status_for(S) == MILTER_STATUS_NOT_CHANGE && !n_counted[0]), "no answer is known before it is given");
#else
    for (i = 0; i < n_milters; i++) {
        check_sent(i, wanted(&Z[i]));
        VP_ASSERT(K[i].n_abort == dropped(&Z[i]) && K[i].n_quit == 0, "a milter without accepted recipient drops the message");
        VP_ASSERT((g_queue_find(P->reply_queue, &K[i]) != NULL) == (wanted(&Z[i]) && Z[i].need_reply && !K[i].sync), "exactly the answers that will come are awaited");
        if (wanted(&Z[i])) none = 0;
    }
    VP_ASSERT(n_reply == (!none && g_queue_is_empty(P->reply_queue)), "a command nobody answers to is answered at once");
    VP_ASSERT(!n_reply || reply_id == MILTER_STATUS_CONTINUE, "no answer means continue");
#endif
    VP_REACH("asked");
}
#endif

static void macro(void)
{
    static const MilterCommand c[] = { MILTER_COMMAND_CONNECT, MILTER_COMMAND_HELO, MILTER_COMMAND_ENVELOPE_FROM, MILTER_COMMAND_ENVELOPE_RECIPIENT,
        MILTER_COMMAND_DATA, MILTER_COMMAND_HEADER, MILTER_COMMAND_END_OF_HEADER, MILTER_COMMAND_BODY, MILTER_COMMAND_END_OF_MESSAGE, MILTER_COMMAND_UNKNOWN };
    int i;
    setup();
    cmd_ = c[vp_below("command", 10)];
    macros_ = (GHashTable *)&c_obj.o[3];
    VP_ASSERT(milter_manager_children_define_macro(C, cmd_, macros_), "macros are taken");
    if (have_w) VP_ASSERT(K[0].n_macros == wanted(&Z[0]), "macros go to the milters that get the command");
#ifndef VP_A
    for (i = 0; i < n_milters; i++) VP_ASSERT(K[i].n_macros == wanted(&Z[i]), "macros go to the milters that get the command");
#endif
    VP_REACH("macros");
}
static void check(void)
{
    gboolean r;
    setup();
#ifdef CASE_check_processing
    r = milter_manager_children_check_processing_message(C);
    if (have_w && handling(&Z[0])) VP_ASSERT(r, "a milter is handling the message");
#ifndef VP_A
    VP_ASSERT(r == anyone(handling), "some milter handles the message");
#endif
    VP_ASSERT(r || n_error == 1, "the lack of milters is reported");
#else
    r = milter_manager_children_check_alive(C);
    if (all_expired) VP_ASSERT(!r && n_error == 0, "a session that was given up stays so");
    else {
        if (have_w && alive(&Z[0])) VP_ASSERT(r, "a milter is alive");
        VP_ASSERT(r || n_error == 1, "the lack of milters is reported");
#ifndef VP_A
        VP_ASSERT(r == anyone(alive), "some milter is alive");
#endif
    }
#endif
    if (r) VP_REACH("some"); else VP_REACH("none");
}
static void session_abort(void)
{
    int i;
    setup();
    milter_manager_children_abort(C);
    VP_ASSERT(P->state == MILTER_SERVER_CONTEXT_STATE_ABORT && P->processing_state == P->state, "the message is over");
    VP_ASSERT(!P->emitted_reply_for_message_oriented_command, "nothing is left of the message");
    for (i = 0; i < (have_w ? 1 : 0); i++) {
        VP_ASSERT(K[i].n_abort == dropped(&Z[i]), "every milter handling the message is told to abort, once");
        VP_ASSERT(K[i].n_reset == alive(&Z[i]) && K[i].n_quit == 0, "every milter forgets the message and stays");
        VP_REACH("aborted");
    }
    VP_ASSERT(n_reply == 0, "aborting has no reply");
}
static void session_quit(void)
{
    int was_finished;
    setup();
    P->finished = was_finished = any_bool("finished");
    milter_manager_children_quit(C);
    if (have_w) { VP_ASSERT(K[0].n_quit == (alive(&Z[0]) && Z[0].state != MILTER_SERVER_CONTEXT_STATE_QUIT), "every milter still there is told to quit, once"); VP_REACH("quit"); }
    VP_ASSERT(n_finished == !was_finished, "the session ends once");
}
static void waiting_children(void)
{
    int old;
    setup();
    cmd_ = MILTER_COMMAND_BODY;
    old = any_bool("waiting already");
#ifdef VP_A
    P->command_waiting_child_queue = old ? &waiting_ : NULL;
    P->command_queue = NULL;
#else
    vp_assume(!old);
#endif
    init_command_waiting_child_queue(C, cmd_);
    VP_ASSERT(P->command_queue && GPOINTER_TO_INT(P->command_queue->data) == cmd_, "the command is remembered for the milters to come");
    if (!have_w) return;
#ifdef VP_A
    VP_ASSERT(waiting_w == (!old && wanted(&Z[0])), "every milter handling the message for an accepted recipient gets it");
#else
    VP_ASSERT((g_list_find(P->command_waiting_child_queue, &K[0]) != NULL) == wanted(&Z[0]), "every milter handling the message for an accepted recipient gets it");
    VP_ASSERT(g_list_length(P->command_queue) == 1, "the command is remembered once");
#endif
    VP_ASSERT(K[0].n_abort == (!old && dropped(&Z[0])), "a milter without accepted recipient drops the message");
    VP_REACH("waiting");
}

/* ------------------------------------------------------------ negotiation */
static struct { GObject o[2]; } opt_obj, opt2_obj;
static struct { guint32 w[16]; } opt_, opt2_;
#define OPT ((MilterOption *)&opt_obj)
#define OPT2 ((MilterOption *)&opt2_obj)
static guint v1, a1, s1, v2, a2, s2;
static void options(void)
{
    vp_set_private(OPT, MILTER_TYPE_OPTION, &opt_);
    vp_set_private(OPT2, MILTER_TYPE_OPTION, &opt2_);
    v1 = vp_u32("version"); a1 = vp_u32("action"); s1 = vp_u32("step");
    v2 = vp_u32("version"); a2 = vp_u32("action"); s2 = vp_u32("step");
    milter_option_set_version(OPT, v1); milter_option_set_action(OPT, a1); milter_option_set_step(OPT, s1);
    milter_option_set_version(OPT2, v2); milter_option_set_action(OPT2, a2); milter_option_set_step(OPT2, s2);
}
/* the steps a side has to agree to */
#define ASKED_MASK (MILTER_STEP_SKIP | MILTER_STEP_ENVELOPE_RECIPIENT_REJECTED | MILTER_STEP_HEADER_VALUE_WITH_LEADING_SPACE)
#ifdef VP_A
static int replied_neg;
void gh_reply_negotiate(MilterManagerChildren *c) { VP_ASSERT(c == C && !q_w && !q_others, "the reply follows the last milter's"); replied_neg++; }
void gh_check_fallback(MilterManagerChildren *c) { VP_ASSERT(n_negotiate_reply == 1, "after the reply"); }
#else
gboolean milter_server_context_establish_connection(MilterServerContext *c, GError **e)
{ kid(c)->n_established++; return TRUE; }
#endif
#ifdef CASE_negotiate
static void negotiate(void)
{
    int i;
    setup(); options();
    privilege_ = any_bool("privilege");
    P->milters = have_w ? P->milters : NULL;
#ifdef VP_A
    M_head = P->milters; vp_assume(!have_w || M_head); if (!have_w) M_head = P->milters = NULL;
#endif
    milter_manager_children_negotiate(C, OPT, NULL);
    VP_ASSERT(P->option == OPT, "the MTA's options are negotiated");
    VP_ASSERT(milter_option_get_version(OPT) == (v1 > 6 ? 6 : v1), "at most protocol version 6 is spoken");
    VP_ASSERT(milter_option_get_action(OPT) == a1 && milter_option_get_step(OPT) == s1, "nothing else changes");
    VP_ASSERT(P->initial_yes_steps == (s1 & ASKED_MASK), "what the MTA can do is remembered");
    if (!have_w) { VP_ASSERT(P->negotiated && n_negotiate_reply == 0, "without milters the reply is given later"); VP_REACH("none"); return; }
    VP_ASSERT(P->state == MILTER_SERVER_CONTEXT_STATE_NEGOTIATE && AWAITED, "every milter's answer is awaited");
    VP_ASSERT(K[0].n_established == 1, "every milter is connected to");
    VP_ASSERT(n_retry <= 1, "a milter that cannot be reached is tried again once");
#ifndef VP_A
    for (i = 0; i < n_milters; i++) VP_ASSERT(K[i].n_established == 1, "every milter is connected to");
#endif
    VP_REACH("some");
}
#endif
static void reply_neg(void)
{
    guint req, ini;
    setup(); options();
    P->option = any_bool("option") ? OPT : NULL;
    P->negotiated = any_bool("negotiated");
    ini = P->initial_yes_steps = vp_u32("initial") & ASKED_MASK;
    req = P->requested_yes_steps = vp_u32("requested") & ASKED_MASK;
    P->milters = NULL;
    reply_negotiate(C);
    if (!P->option) { VP_ASSERT(n_abort_session == 1 && n_negotiate_reply == 0, "no negotiation, no reply"); VP_REACH("not started"); return; }
    VP_ASSERT(n_negotiate_reply == 1, "one reply");
    VP_ASSERT(neg_step == (s1 & ~MILTER_STEP_NO_MASK & ~(ASKED_MASK & ~(ini & req))), "every event is asked for and every command replied to; only steps both sides want are used");
    VP_ASSERT((neg_step & MILTER_STEP_NO_MASK) == 0, "the MTA sends every event and waits for the reply");
    VP_ASSERT(neg_action == a1 && neg_version == v1, "nothing else changes");
    VP_REACH("replied");
}
static void negotiate_reply(void)
{
    int others, opt;
    setup(); options();
    opt = any_bool("option");
    P->option = opt ? OPT : NULL;
    P->requested_yes_steps = vp_u32("requested") & ASKED_MASK;
    { guint req = P->requested_yes_steps; int mr = any_bool("macro requests");
#ifdef VP_A
    q_w = 1; q_others = vp_u32("others"); vp_assume(q_others < 0x7fffffff); q_sync(P->reply_queue); others = q_others > 0;
#else
    others = any_bool("others");
    while (g_queue_pop_head(P->reply_queue)) ;
    g_queue_push_tail(P->reply_queue, &K[0]);
    if (others) g_queue_push_tail(P->reply_queue, &K[1]);
    P->milters = NULL; P->initial_yes_steps = ASKED_MASK;
#endif
    cb_negotiate_reply(CTX(0), OPT2, mr ? (MilterMacrosRequests *)&c_obj.o[3] : NULL, C);
    VP_ASSERT(merged_macros == mr && (!mr || merged_arg == (gpointer)&c_obj.o[3]), "the requested macros are added");
    VP_ASSERT(!AWAITED, "the milter has answered");
    if (opt) VP_ASSERT(P->requested_yes_steps == (req | (s2 & ASKED_MASK)) && P->negotiated, "what the milter asks for is added");
    if (opt && others) {
        guint a = milter_option_get_action(OPT), st = milter_option_get_step(OPT);
        if (v2 > v1) VP_ASSERT(a == a1 && st == s1, "an answer of a version that was not offered changes nothing");
        else {
            VP_ASSERT(a == (a1 | a2), "the session may do what any milter may do");
            VP_ASSERT((st & MILTER_STEP_NO_MASK) == (s1 & s2 & MILTER_STEP_NO_MASK), "an event or reply is left out only if no milter wants it");
            VP_ASSERT((st & ASKED_MASK) == ((s1 | s2) & ASKED_MASK), "steps asked for are collected");
        }
        VP_ASSERT(milter_option_get_version(OPT) == v1, "the version stays");
    }
    VP_ASSERT(n_error == !opt, "an unexpected answer is reported");
#ifdef VP_A
    VP_ASSERT(replied_neg == (!others && !P->finished), "the MTA gets the reply when every milter has answered");
#else
    VP_ASSERT(n_negotiate_reply == (!others && opt), "the MTA gets the reply when every milter has answered");
#endif
    if (others) VP_REACH("others"); else VP_REACH("last");
    }
}
static void fallback(void)
{
    int i, worst = 3;
    setup();
    all_expired = P->all_expired_as_fallback_on_negotiated = FALSE;
#ifdef VP_A
    bound_ = any_status("bound");
    vp_assume(rank_of(bound_) >= 3);
    if (have_w && counts(&Z[0])) vp_assume(rank_of(Z[0].fallback) <= rank_of(bound_));
#else
    for (i = 0; i < n_milters; i++) if (!Z[i].negotiated && rank_of(Z[i].fallback) > worst) worst = rank_of(Z[i].fallback);
#endif
    check_fallback_status_on_negotiate(C);
#ifdef VP_A
    if (rank_of(bound_) == 3) {
        VP_ASSERT(K[0].n_gone == 0 && !P->all_expired_as_fallback_on_negotiated, "milters that failed to start do not matter if they are to be ignored");
        VP_REACH("ignored");
    }
    else VP_ASSERT(K[0].n_gone == (have_w && Z[0].negotiated), "the session is given up if a refusing milter did not negotiate");
    if (have_w && Z[0].negotiated && K[0].n_gone) VP_REACH("given up");
#else
    for (i = 0; i < n_milters; i++)
        VP_ASSERT(K[i].n_gone == (worst > 3 && Z[i].negotiated), "the session is given up if a refusing milter did not negotiate");
    VP_REACH("checked");
#endif
}
int vp_main(void)
{
#if defined(CASE_define_macro)
    macro();
#elif defined(CASE_check_alive) || defined(CASE_check_processing)
    check();
#elif defined(CASE_abort)
    session_abort();
#elif defined(CASE_quit)
    session_quit();
#elif defined(CASE_waiting_children)
    waiting_children();
#elif defined(CASE_negotiate)
    negotiate();
#elif defined(CASE_reply_negotiate)
    reply_neg();
#elif defined(CASE_negotiate_reply)
    negotiate_reply();
#elif defined(CASE_fallback)
    fallback();
#else
    fanout();
#endif
    return 0;
}

#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
