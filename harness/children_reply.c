/* TUS: milter/core/milter-protocol.c */
/* Contracts of the callbacks that take one milter's answer and decide what the
 * MTA is told (milter-manager-children.c). */
#ifdef VP_A
/* the rest of the list of waiting milters: any number of others, each once */
#include <glib.h>
static GList vp_rest;
#define VP_LIST_MORE(l) ((l) && (l) != &vp_rest)
#endif
#include "vp_children.h"

static int abort_calls;
static MilterStatus old_, new_;
static guint code_; static char *ext_, *msg_;          /* the remembered reply code */
static int S;                                           /* the state of the milter */
static int pending_, pending_ok, pending_done;
static int other_s; static MilterStatus other_v;

/* ---- macro requests, headers (not used by these functions) ---- */
MilterMacrosRequests *milter_macros_requests_new(void) { return NULL; }
static void vp_modification(const Ev *e) { }

#ifdef VP_A
/* contracts of functions discharged in other cases */
gboolean gh_abort(MilterManagerChildren *c)
{
    VP_ASSERT(c == C, "this session is aborted");
    abort_calls++;
    P->state = P->processing_state = MILTER_SERVER_CONTEXT_STATE_ABORT;
    P->emitted_reply_for_message_oriented_command = FALSE;
    return TRUE;
}
static int eom_signals;
void gh_eom_signals(MilterManagerChildren *c)
{ VP_ASSERT(c == C && n_reply == 0, "the modifications precede the reply"); eom_signals++; }
static gboolean gh_pending(int cmd)
{
    VP_ASSERT(pending_ == cmd && !pending_done, "the kept request is processed, once");
    pending_done = 1;
    pending_ok = any_bool("processed");
    return pending_ok;
}
gboolean gh_header(MilterManagerChildren *c, const gchar *n, const gchar *v)
{
    VP_ASSERT(P->pending_message_request && n == P->pending_message_request->arguments.header.name &&
              v == P->pending_message_request->arguments.header.value, "the kept header is sent");
    return gh_pending(MILTER_COMMAND_HEADER);
}
gboolean gh_end_of_header(MilterManagerChildren *c) { return gh_pending(MILTER_COMMAND_END_OF_HEADER); }
gboolean gh_body(MilterManagerChildren *c, const gchar *p, gsize n)
{
    VP_ASSERT(P->pending_message_request && p == P->pending_message_request->arguments.body.chunk &&
              n == P->pending_message_request->arguments.body.size, "the kept chunk is sent");
    return gh_pending(MILTER_COMMAND_BODY);
}
gboolean gh_end_of_message(MilterManagerChildren *c, const gchar *p, gsize n)
{
    VP_ASSERT(P->pending_message_request && p == P->pending_message_request->arguments.end_of_message.chunk &&
              n == P->pending_message_request->arguments.end_of_message.size, "the kept chunk is sent");
    return gh_pending(MILTER_COMMAND_END_OF_MESSAGE);
}
/* starting the next milter: contract discharged in children_feed */
static int next_calls; static gpointer next_kid; static MilterCommand next_cmd;
MilterStatus gh_send_command(MilterManagerChildren *c, MilterServerContext *k, MilterCommand cmd)
{ next_calls++; next_kid = k; next_cmd = cmd; return MILTER_STATUS_PROGRESS; }
#else
/* natively: message headers as an opaque object without headers */
static int hdrs_;
#define H ((MilterHeaders *)&hdrs_)
MilterHeaders *milter_headers_new(void) { return H; }
MilterHeaders *milter_headers_copy(MilterHeaders *h) { return H; }
const GList *milter_headers_get_list(MilterHeaders *h) { return NULL; }
guint milter_headers_length(MilterHeaders *h) { return 0; }
MilterHeader *milter_headers_get_nth_header(MilterHeaders *h, guint i) { return NULL; }
guint milter_manager_configuration_get_chunk_size(MilterManagerConfiguration *c) { return 4; }
#endif
#define ABORTED (P->state == MILTER_SERVER_CONTEXT_STATE_ABORT)

static void setup(void)
{
    int i;
    C = (MilterManagerChildren *)&c_obj;
    P = &priv_;
    vp_set_private(C, MILTER_TYPE_MANAGER_CHILDREN, P);
    milter_manager_children_init(C);
    for (i = 0; i < NK; i++) any_kid(i);
    K[0].negotiated = TRUE; K[0].quitted = FALSE;
}
static void set_statuses(void)
{
    old_ = any_status("old");
    if (old_ != MILTER_STATUS_NOT_CHANGE || any_bool("kept"))
        g_hash_table_insert(P->reply_statuses, GINT_TO_POINTER(S), GINT_TO_POINTER(old_));
    other_s = MILTER_SERVER_CONTEXT_STATE_CONNECT + vp_below("os", 10);
    other_v = any_status("ov");
    if (other_s != S) g_hash_table_insert(P->reply_statuses, GINT_TO_POINTER(other_s), GINT_TO_POINTER(other_v));
    /* a remembered code belongs to an answer given to this command */
    if (any_bool("code") && rank_of(old_) >= 4) {
        code_ = 400 + vp_below("code", 200);
        vp_assume(code_ < 500 || rank_of(old_) >= 5);
        ext_ = any_bool("ext") ? vp_cstr("ext") : NULL;
        msg_ = any_bool("msg") ? vp_cstr("msg") : NULL;
    }
    P->reply_code = code_; P->reply_extended_code = ext_ ? g_strdup(ext_) : NULL; P->reply_message = msg_ ? g_strdup(msg_) : NULL;
}
/* the worst of what was answered before and what the milter answers now */
static void answer(MilterStatus s, guint c, char *x, char *m)
{
    if (K[0].evaluation && s != MILTER_STATUS_CONTINUE) s = MILTER_STATUS_ACCEPT;
    else if (c && rank_of(s) >= rank_of(old_)) { code_ = c; ext_ = x; msg_ = m; }
    new_ = worse(old_, s);
}
static void check_reply(int expected, MilterStatus st)
{
    VP_ASSERT(n_reply == expected, "a command gets one reply, when every milter has answered");
    if (!expected) return;
    if ((code_ / 100 == 4 && st == MILTER_STATUS_TEMPORARY_FAILURE) || (code_ / 100 == 5 && st == MILTER_STATUS_REJECT)) {
        VP_ASSERT(reply_id == EV_REPLY_CODE, "the reply code of the deciding milter is used");
        VP_ASSERT(reply_code == code_, "the code given is the code forwarded");
        VP_ASSERT(ext_ ? reply_ext && vp_streq(reply_ext, ext_) : !reply_ext, "the extended code given is forwarded");
        VP_ASSERT(msg_ ? reply_msg && vp_streq(reply_msg, msg_) : !reply_msg, "the text given is forwarded");
    } else
        VP_ASSERT(reply_id == name_of(st), "the reply is the most severe answer");
    VP_ASSERT(P->reply_code == 0 && !P->reply_extended_code && !P->reply_message, "a reply code is used for one reply");
}
static void check_statuses(void)
{
    VP_ASSERT(status_for(S) == new_, "the most severe answer to the command is kept");
    if (other_s != S && !n_reply) VP_ASSERT(status_for(other_s) == other_v, "answers to other commands are kept apart");
}

static void deliver(void)
{
#if defined(ANS_continue)
    answer(MILTER_STATUS_CONTINUE, 0, NULL, NULL);
    cb_continue(CTX(0), C);
#elif defined(ANS_temporary_failure)
    answer(MILTER_STATUS_TEMPORARY_FAILURE, 0, NULL, NULL);
    cb_temporary_failure(CTX(0), C);
#elif defined(ANS_reject)
    answer(MILTER_STATUS_REJECT, 0, NULL, NULL);
    cb_reject(CTX(0), C);
#elif defined(ANS_accept)
    answer(MILTER_STATUS_ACCEPT, 0, NULL, NULL);
    cb_accept(CTX(0), C);
#elif defined(ANS_discard)
    answer(MILTER_STATUS_DISCARD, 0, NULL, NULL);
    cb_discard(CTX(0), C);
#elif defined(ANS_reply_code)
    guint c = 400 + vp_below("given", 200);
    char *x = any_bool("gx") ? vp_cstr("gx") : NULL, *m = any_bool("gm") ? vp_cstr("gm") : NULL;
    answer(c < 500 ? MILTER_STATUS_TEMPORARY_FAILURE : MILTER_STATUS_REJECT, c, x, m);
    cb_reply_code(CTX(0), c, x, m, C);
#elif defined(ANS_stopped)
    /* its applicable condition excludes it: it refuses nothing */
    new_ = worse(old_, S == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM || S == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT ? MILTER_STATUS_CONTINUE : MILTER_STATUS_ACCEPT);
    cb_stopped(CTX(0), C);
#endif
}
#if defined(ANS_continue)
#define ANSWER MILTER_STATUS_CONTINUE
#elif defined(ANS_accept) || defined(ANS_stopped)
#define ANSWER MILTER_STATUS_ACCEPT
#else
#define ANSWER MILTER_STATUS_REJECT     /* any refusing answer */
#endif

/* ================= connection level: every milter is asked at once ======== */
static void conn(void)
{
    int others, last, i;
    setup();
#ifdef CONN_STATE
    S = CONN_STATE;
#else
    S = MILTER_SERVER_CONTEXT_STATE_CONNECT + vp_below("S", 6);
#endif
#ifdef ANS_stopped
    vp_assume(S != MILTER_SERVER_CONTEXT_STATE_UNKNOWN);        /* no condition is checked there */
    K[0].pm = S > MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM;
#endif
    P->state = P->processing_state = S;
    K[0].state = S;
    set_statuses();
#ifdef VP_A
    q_w = 1; q_others = vp_u32("others"); vp_assume(q_others < 0x7fffffff); q_sync(P->reply_queue); others = q_others > 0;
#else
    others = vp_below("others", 3);
    { int at = vp_below("at", others + 1), n = 1;
      for (i = 0; i <= others; i++) {
          Kid *k = i == at ? &K[0] : &K[n++];
          P->milters = g_list_append(P->milters, k);
          g_queue_push_tail(P->reply_queue, k);
      } }
#endif
    /* only a DATA sent on behalf of a later command has something kept */
    if (S == MILTER_SERVER_CONTEXT_STATE_DATA && any_bool("pending")) {
        PendingMessageRequest *r;
#ifdef VP_A
        switch (vp_below("which", 4)) {
        case 0: r = pending_header_request_new(vp_cstr("n"), vp_cstr("v")); break;
        case 1: { gsize n = vp_u8("n"); r = pending_body_request_new(vp_block("c", n), n); } break;
        case 2: { gsize n = vp_u8("n"); r = pending_end_of_message_request_new(vp_block("c", n), n); } break;
        default: r = pending_end_of_header_request_new(); break;
        }
#else
        r = pending_end_of_header_request_new();
        /* the milter that answers DATA is handling the message */
        K[0].pm = K[0].accepted = TRUE; K[0].skip = FALSE;
#endif
        pending_ = r->command;
        P->pending_message_request = r;
    }
    deliver();
    check_statuses();
    if (ANSWER != MILTER_STATUS_CONTINUE &&
        (S == MILTER_SERVER_CONTEXT_STATE_CONNECT || S == MILTER_SERVER_CONTEXT_STATE_HELO ||
         S == MILTER_SERVER_CONTEXT_STATE_UNKNOWN)) {
        VP_ASSERT(K[0].n_quit == 1 && AWAITED && n_reply == 0, "the milter is told to quit; the reply waits for its end");
#ifndef ANS_continue
        VP_REACH("quits");
#endif
        return;
    }
    VP_ASSERT(K[0].n_quit == 0, "a milter that goes on is not told to quit");
    if (ANSWER != MILTER_STATUS_CONTINUE && S != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT)
        VP_ASSERT(!handling(&K[0]), "a milter that decided is done with the message");
#ifdef ANS_stopped
    if (S == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT) VP_ASSERT(K[0].pm && K[0].status == MILTER_STATUS_NOT_CHANGE, "a milter that leaves a recipient out stays for the others");
#endif
    if (S == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT && ANSWER == MILTER_STATUS_REJECT)
        VP_ASSERT(K[0].n_pm_false == 0, "a refused recipient does not end the message");
    if (others) {
        VP_ASSERT(OTHERS_AWAITED && n_reply == 0 && !ABORTED && !AWAITED, "the others are awaited");
        VP_ASSERT(P->reply_code == code_, "the reply code is kept for the reply");
        VP_REACH("not the last answer");
        return;
    }
    if (!pending_) VP_ASSERT(n_modification == 0 && n_error == 0, "nothing but the reply");
#ifdef VP_N
    if (pending_ && new_ == MILTER_STATUS_CONTINUE)
        for (i = 0; i < NK; i++)
            if (K[i].n_sent) pending_ok = 1;
#endif
    last = !(pending_ && new_ == MILTER_STATUS_CONTINUE && pending_ok);
    VP_ASSERT(P->pending_message_request == NULL, "the kept request is processed or dropped");
    check_reply(last && new_ != MILTER_STATUS_NOT_CHANGE, new_);
#ifdef VP_A
    VP_ASSERT(pending_done == (pending_ && new_ == MILTER_STATUS_CONTINUE), "the kept request goes on when every milter lets it");
    if (pending_) VP_REACH("kept request");
#endif
    if (last)
    VP_ASSERT(ABORTED == (new_ == MILTER_STATUS_DISCARD ||
                          ((new_ == MILTER_STATUS_REJECT || new_ == MILTER_STATUS_TEMPORARY_FAILURE) &&
                           S != MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT)),
              "a refused message is dropped by every milter; a refused recipient is not");
    VP_REACH("last answer");
}

/* ================= the message: one milter after the other ================ */
static int n_waiting; static MilterCommand first_cmd; static int flag_;
static void msg_setup(int first)
{
    GList *l = NULL;
    int i;
    setup();
    S = MILTER_SERVER_CONTEXT_STATE_HEADER + vp_below("S", 4);
    P->processing_state = S;
    P->state = S + vp_below("ahead", 4);
    vp_assume(P->state <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE);
    K[0].state = S;
    set_statuses();
    code_ = 0; P->reply_code = 0; P->reply_extended_code = P->reply_message = NULL;
    flag_ = P->emitted_reply_for_message_oriented_command = any_bool("replied");
    vp_assume(!flag_);
    n_waiting = vp_below("waiting", 3);
    if (first) l = g_list_append(l, &K[0]);
    for (i = 0; i < n_waiting; i++) l = g_list_append(l, &K[1 + i]);
#ifdef VP_A
    if (n_waiting == 2 && any_bool("more")) { vp_rest.prev = g_list_last(l); g_list_last(l)->next = &vp_rest; }
#endif
    P->command_waiting_child_queue = l;
    first_cmd = -1;
    for (i = 0; i < 4; i++) {
        static const MilterCommand c[] = { MILTER_COMMAND_HEADER, MILTER_COMMAND_END_OF_HEADER, MILTER_COMMAND_BODY, MILTER_COMMAND_END_OF_MESSAGE };
        if (any_bool("cmd")) {
            P->command_queue = g_list_append(P->command_queue, GINT_TO_POINTER(c[i]));
            if (first_cmd == (MilterCommand)-1) first_cmd = c[i];
        }
    }
    for (i = 0; i < NK; i++) {
        P->milters = g_list_append(P->milters, &K[i]);
        K[i].negotiated = TRUE; K[i].quitted = FALSE;
    }
#ifndef VP_A
    P->headers = P->original_headers = H;
    vp_assume(first_cmd != MILTER_COMMAND_HEADER && first_cmd != MILTER_COMMAND_BODY);
#endif
}
/* the milter is done with the message without deciding it alone */
static void check_next(void)
{
    VP_ASSERT(!ABORTED, "the others go on");
    if (n_waiting == 0) {
        MilterStatus st = P->state == S ? new_ : status_for(P->state);
#ifdef VP_A
        VP_ASSERT(eom_signals == (P->state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE), "modifications are sent at the end of the message");
#endif
        check_reply(st != MILTER_STATUS_NOT_CHANGE, st);
        VP_REACH("no other milter");
        return;
    }
    VP_ASSERT(P->command_waiting_child_queue && P->command_waiting_child_queue->data == (gpointer)&K[1], "the next milter is up");
    if (first_cmd == (MilterCommand)-1) { check_reply(1, MILTER_STATUS_CONTINUE); return; }
    VP_ASSERT(n_reply == 0, "no reply before the other milters have seen the message");
#ifdef VP_A
    VP_ASSERT(next_calls == 1 && next_kid == (gpointer)&K[1] && next_cmd == first_cmd, "the next milter gets the message from its start");
#else
    VP_ASSERT(K[1].n_sent == 1 && K[1].sent == first_cmd, "the next milter gets the message from its start");
#endif
    VP_REACH("next milter");
}
static void check_decided(void)
{
#ifdef VP_A
    VP_ASSERT(eom_signals == (S == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE), "modifications are sent at the end of the message");
    VP_ASSERT(next_calls == 0, "no other milter gets a refused message");
#endif
    check_reply(1, new_);
    VP_ASSERT(ABORTED, "a refused message is dropped by every milter");
#if !defined(ANS_accept) && !defined(ANS_stopped)
    VP_REACH("decided");
#endif
}
static void msg(void)
{
    msg_setup(1);
    deliver();
    check_statuses();
    VP_ASSERT(!handling(&K[0]), "a milter that decided is done with the message");
    VP_ASSERT(K[0].n_quit == 0, "a milter that decided is kept for the next message");
#ifdef ANS_stopped
    VP_ASSERT(K[0].n_abort == 1, "a milter that is left out is told that the message is over");
#endif
    if (ANSWER == MILTER_STATUS_ACCEPT || K[0].evaluation) check_next();
    else check_decided();
}

/* ================= a milter that fails =================================== */
static GError *fail_err;
static void fail_now(void)
{
#if defined(FAIL_error)
    cb_error((MilterErrorEmittable *)&K[0], fail_err, C);
#elif defined(FAIL_reading)
    cb_reading_timeout(CTX(0), C);
#elif defined(FAIL_writing)
    cb_writing_timeout(CTX(0), C);
#elif defined(FAIL_end_of_message)
    cb_end_of_message_timeout(CTX(0), C);
#elif defined(FAIL_finished)
    cb_finished((MilterAgent *)&K[0], C);
#endif
}
static void check_gone(void)
{
    VP_ASSERT(K[0].n_gone == 1 && K[0].quitted && K[0].n_expired > 0, "the failed milter is not heard or asked any more");
}
static void failed_msg(void)
{
    int waited = any_bool("waited"), fb;
    msg_setup(waited);
    fail_err = g_error_new(1, 1, "e");
#ifdef FAIL_finished
    K[0].processing = TRUE;
#endif
    if (!waited) {
        /* the one being fed is another milter */
        n_waiting = 1 + vp_below("w", 2);
        g_list_free(P->command_waiting_child_queue);
        P->command_waiting_child_queue = g_list_append(NULL, &K[1]);
        if (n_waiting == 2) P->command_waiting_child_queue = g_list_append(P->command_waiting_child_queue, &K[0]);
#ifdef VP_A
        if (any_bool("more")) { GList *l = g_list_last(P->command_waiting_child_queue); vp_rest.prev = l; l->next = &vp_rest; }
#endif
    }
    fb = K[0].fallback;
    new_ = worse(old_, fb);
    vp_assume(rank_of(old_) < 4);       /* refusals end the message at once */
    vp_assume(rank_of(fb) > 0);
    fail_now();
    check_gone();
    if (!waited) {
        VP_ASSERT(n_reply == 0 && !ABORTED && K[1].n_sent == 0, "a milter that is not waited for decides nothing");
        VP_ASSERT(g_list_find(P->command_waiting_child_queue, &K[0]) == NULL, "it is not asked later");
        VP_ASSERT(P->command_waiting_child_queue->data == (gpointer)&K[1], "the others keep their turn");
        VP_ASSERT(status_for(S) == old_, "its fallback does not count");
        VP_REACH("not waited for");
        return;
    }
    VP_ASSERT(status_for(S) == new_, "the fallback status counts as its answer");
    if (rank_of(fb) >= 4) check_decided();
    else check_next();
}
static void failed_conn(void)
{
    int others, i, fb;
    setup();
    S = MILTER_SERVER_CONTEXT_STATE_CONNECT + vp_below("S", 6);
    P->state = P->processing_state = S;
    K[0].state = S;
    fail_err = g_error_new(1, 1, "e");
    set_statuses();
#ifdef VP_A
    q_w = 1; q_others = vp_u32("others"); vp_assume(q_others < 0x7fffffff); q_sync(P->reply_queue); others = q_others > 0;
#else
    others = vp_below("others", 3);
    for (i = 0; i <= others; i++) {
        P->milters = g_list_append(P->milters, &K[i]);
        g_queue_push_tail(P->reply_queue, &K[i]);
    }
#endif
    fb = K[0].fallback;
    new_ = old_;
#ifdef FAIL_finished
    if (K[0].processing)
#endif
    new_ = worse(old_, fb);
    fail_now();
    check_gone();
    VP_ASSERT(status_for(S) == new_, "the fallback status counts as its answer");
    VP_ASSERT(!AWAITED, "the failed milter is not waited for");
    if (others) {
        VP_ASSERT(n_reply == 0 && !ABORTED && OTHERS_AWAITED, "the others are awaited");
        VP_REACH("not the last answer");
        return;
    }
    check_reply(new_ != MILTER_STATUS_NOT_CHANGE, new_);
    VP_REACH("last answer");
}

int vp_main(void)
{
#if defined(CASE_conn)
    conn();
#elif defined(CASE_msg)
    msg();
#elif defined(CASE_failed_msg)
    failed_msg();
#elif defined(CASE_failed_conn)
    failed_conn();
#endif
    return 0;
}

#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
