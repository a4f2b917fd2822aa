/* TUS: milter/core/milter-reply-signals.c */
/* Contracts of the replies of one milter (milter-server-context.c): a reply
 * that fits what the milter was asked is reported exactly once, with exactly
 * its arguments; any other is reported as an error or not at all. */
#include "vp_server.h"

#define ST(s) MILTER_SERVER_CONTEXT_STATE_##s
static int valid_, queued_; static guint timer1;
static int in_emit_ok;
static const char *x_sig; static int n_x;
static struct { int str; gconstpointer p; guint64 u; } x_arg[3];
static int new_status, checks_negotiated, timer_at_emission, trunc_first, is_skip;

/* while a reply is reported the next command may be sent */
static void nested(void)
{
    if (vp_bool("nested")) timer1 = P->timeout_id = fresh_timer();
}
static void reply_signal(VpEmit *e)
{
    int i;
    VP_ASSERT(x_sig && vp_is(e, x_sig), "the reply is reported as what it is");
    n_reply++;
    VP_ASSERT(n_processed == 0 && n_error == 0, "the reply is reported first");
    VP_ASSERT((int)e->sig->n == n_x, "with its arguments");
    for (i = 0; i < n_x; i++) {
        if (x_arg[i].str == 1) VP_ASSERT(x_arg[i].p ? e->a[i].p && vp_streq(e->a[i].p, x_arg[i].p) : !e->a[i].p, "with its arguments");
        else if (x_arg[i].str == 2) VP_ASSERT(e->a[i].p == x_arg[i].p && VP_UNCUT(e, i), "with its arguments");
        else VP_ASSERT(e->a[i].u == x_arg[i].u, "with its arguments");
    }
    if (timer_at_emission == 0) { VP_ASSERT(tm_live == 0, "the reply is no longer awaited when it is reported"); nested(); }
    else if (timer_at_emission == 1) VP_ASSERT(tm_live && tm_live != timer0 && tm_fn == cb_end_of_message_timeout, "a milter at work gets its time again");
    TIMER_OK;
    if (checks_negotiated) VP_ASSERT(P->negotiated && n_requests == 1, "the milter has negotiated when this is reported");
    VP_ASSERT(P->state == state0, "a reply does not change the state");
}
static void transited(MilterServerContextState s) { VP_ASSERT(0, "a reply does not change the state"); }

static void begin(void)
{
    setup();
    timer_at_emission = 0;
    X.cmd = 'B';
    write_fail = vp_bool("write_fail"); has_macros = 0;
    P->process_body_count = 0; P->sent_end_of_message = FALSE;
    queued_ = queue0;
}
static int message_state(void) { return state0 >= ST(ENVELOPE_FROM) && state0 <= ST(END_OF_MESSAGE); }
static int answerable(void)
{ return state0 == ST(CONNECT) || state0 == ST(HELO) || state0 == ST(UNKNOWN) || message_state(); }
static void check_invalid(void)
{
    VP_ASSERT(n_error == 1 && last_error == MILTER_SERVER_CONTEXT_ERROR_INVALID_STATE, "a reply that does not fit is an error");
    VP_ASSERT(n_reply == 0 && n_processed == 0, "and has no effect");
}
static void check_common(void)
{
    TIMER_OK;
    VP_ASSERT(P->state == state0, "a reply does not change the state");
    VP_ASSERT(P->quitted == quitted0 && P->processing_message == pm0, "the milter is still in the message");
}
static void body_untouched(void)
{
    BODY_KEPT("the body is kept");
    VP_ASSERT((P->body_response_queue != NULL) == queued_, "the answers awaited stay awaited");
    VP_ASSERT(P->skip_body == skip0, "the body goes on");
}
static void body_done(void)
{ VP_ASSERT(P->body->len == 0 && !P->body_response_queue, "nothing of the body is left to send"); }

#ifdef CASE_continue
int vp_main(void)
{
    begin(); x_sig = "continue";
    int body = state0 == ST(BODY);
    cb_decoder_continue(NULL, CTX);
    check_common();
    VP_ASSERT(P->status == status0 && P->envelope_recipient_status == rstatus0, "continuing is not a decision");
    if (!answerable()) { check_invalid(); body_untouched(); VP_ASSERT(tm_live == 0, "nothing is awaited any more"); VP_REACH("invalid state"); return 0; }
    if (P->quitted) { VP_ASSERT(n_events == 0, "a milter that was told to quit is not heard"); body_untouched(); VP_REACH("quitted"); return 0; }
    if (!body) {
        VP_ASSERT(n_reply == 1 && n_error == 0, "the reply is reported");
        VP_ASSERT(n_processed == (mr0 && state0 == ST(END_OF_MESSAGE)), "the message is processed when its end is answered");
        VP_ASSERT(tm_live == timer1, "only the next command is awaited");
        body_untouched();
        VP_REACH("continue");
        return 0;
    }
    VP_ASSERT(n_processed == 0, "the message goes on");
    if (!queue0) { VP_ASSERT(n_events == 0, "no part of the body was asked about"); body_untouched(); VP_REACH("not asked"); return 0; }
    if (b1 > 0) {
        VP_ASSERT(n_reply == 0 && n_written == 1, "the rest of the chunk is sent before the chunk is answered");
        if (!write_fail) {
            VP_ASSERT(sent0 == 0, "the body goes on from where it was");
            b0 = sent1;
            BODY_KEPT("what was not sent yet is kept in order");
            VP_ASSERT(n_error == 0 && tm_live && tm_fn == cb_writing_timeout && g_list_length(P->body_response_queue) == 1, "its answer is awaited");
        } else VP_ASSERT(n_error == 1 && last_error == MILTER_SERVER_CONTEXT_ERROR_IO_ERROR && !tm_live, "a failed write is an error");
        VP_REACH("rest of the chunk");
        return 0;
    }
    VP_ASSERT(n_reply == 1 && n_error == 0 && n_written == 0 && !P->body_response_queue && tm_live == timer1, "the chunk is answered once");
    VP_REACH("chunk answered");
    return 0;
}
#endif

#if defined(CASE_reply_code) || defined(CASE_temporary_failure) || defined(CASE_reject)
int vp_main(void)
{
    MilterStatus st; int valid = 1, rcpt;
    begin();
    rcpt = state0 == ST(ENVELOPE_RECIPIENT);
#ifdef CASE_reply_code
    guint code = vp_u32("code"); const char *ext = vp_bool("ext") ? vp_cstr("extended") : NULL, *msg = vp_bool("msg") ? vp_cstr("message") : NULL;
    x_sig = "reply-code"; n_x = 3;
    x_arg[0].u = code; x_arg[1].str = 1; x_arg[1].p = ext; x_arg[2].str = 1; x_arg[2].p = msg;
    st = code >= 400 && code <= 499 ? MILTER_STATUS_TEMPORARY_FAILURE : MILTER_STATUS_REJECT;
    valid = answerable();
    cb_decoder_reply_code(NULL, code, ext, msg, CTX);
#elif defined(CASE_reject)
    x_sig = "reject"; st = MILTER_STATUS_REJECT;
    cb_decoder_reject(NULL, CTX);
#else
    x_sig = "temporary-failure"; st = MILTER_STATUS_TEMPORARY_FAILURE;
    cb_decoder_temporary_failure(NULL, CTX);
#endif
    check_common();
    VP_ASSERT(P->status == (rcpt ? status0 : st) && P->envelope_recipient_status == (rcpt ? st : rstatus0), "a refusal counts for the recipient asked about, else for the message");
    if (rcpt && rcpt_) {
        VP_ASSERT(n_removed == 1 && (st == MILTER_STATUS_REJECT ? n_rejected == 1 && !n_tempfailed : n_tempfailed == 1 && !n_rejected), "the result has the recipient among the refused ones");
        VP_ASSERT(!P->current_recipient && mr_new == !mr0, "once");
    } else
        VP_ASSERT(n_removed + n_rejected + n_tempfailed == 0 && P->current_recipient == rcpt_, "no other recipient is refused");
    if (!valid) { check_invalid(); body_untouched();
#ifdef CASE_reply_code
        VP_REACH("invalid state");
#endif
        return 0; }
    if (P->quitted) { VP_ASSERT(n_events == 0, "a milter that was told to quit is not heard"); body_untouched(); VP_REACH("quitted"); return 0; }
    VP_ASSERT(n_reply == 1 && n_error == 0 && n_written == 0, "the refusal is reported");
    VP_ASSERT(n_processed == (mr0 && message_state() && !rcpt), "a refused message is processed");
    VP_ASSERT(tm_live == timer1, "only the next command is awaited");
    if (state0 == ST(BODY)) body_done(); else body_untouched();
    VP_REACH("refused");
    return 0;
}
#endif

#if defined(CASE_accept) || defined(CASE_discard)
int vp_main(void)
{
    MilterStatus st;
    begin();
#ifdef CASE_accept
    x_sig = "accept"; st = MILTER_STATUS_ACCEPT;
    cb_decoder_accept(NULL, CTX);
#else
    x_sig = "discard"; st = MILTER_STATUS_DISCARD;
    cb_decoder_discard(NULL, CTX);
#endif
    check_common();
    VP_ASSERT(P->status == st && P->envelope_recipient_status == rstatus0, "the decision is for the message");
    VP_ASSERT(n_removed + n_rejected + n_tempfailed == 0 && P->current_recipient == rcpt_, "no recipient is refused");
    if (P->quitted) { VP_ASSERT(n_events == 0, "a milter that was told to quit is not heard"); body_untouched(); VP_REACH("quitted"); return 0; }
    VP_ASSERT(n_reply == 1 && n_error == 0 && n_written == 0, "the decision is reported");
    VP_ASSERT(n_processed == (mr0 && message_state()), "a message decided on is processed");
    VP_ASSERT(tm_live == timer1, "only the next command is awaited");
    if (state0 == ST(BODY)) body_done(); else body_untouched();
    VP_REACH("decided");
    return 0;
}
#endif

#ifdef CASE_skip
int vp_main(void)
{
    begin(); x_sig = "skip";
    cb_decoder_skip(NULL, CTX);
    check_common();
    VP_ASSERT(P->status == status0 && P->envelope_recipient_status == rstatus0 && n_processed == 0, "skipping is not a decision");
    if (state0 != ST(BODY)) { check_invalid(); body_untouched(); VP_REACH("invalid state"); return 0; }
    if (P->quitted) { VP_ASSERT(n_events == 0, "a milter that was told to quit is not heard"); body_untouched(); VP_REACH("quitted"); return 0; }
    VP_ASSERT(n_reply == 1 && n_error == 0 && n_written == 0 && P->skip_body, "the milter gets no more of the body");
    VP_ASSERT(tm_live == timer1, "only the next command is awaited");
    body_done();
    VP_REACH("skipped");
    return 0;
}
#endif

#if defined(CASE_connection_failure) || defined(CASE_shutdown)
int vp_main(void)
{
    begin();
#ifdef CASE_shutdown
    x_sig = "shutdown";
    cb_decoder_shutdown(NULL, CTX);
    VP_ASSERT(P->status == status0, "a shutdown is not a decision");
#else
    x_sig = "connection-failure";
    cb_decoder_connection_failure(NULL, CTX);
    VP_ASSERT(P->status == MILTER_STATUS_ERROR, "the milter failed");
#endif
    check_common();
    VP_ASSERT(n_reply == !P->quitted && n_events == n_reply, "the reply is reported once, unless the milter was told to quit");
    VP_ASSERT(tm_live == timer1, "only the next command is awaited");
    VP_REACH("reported");
    return 0;
}
#endif

#ifdef CASE_modification
static const char *h_name, *h_value;
int vp_main(void)
{
    const char *a, *b; guint32 idx; int what, list = -1; gsize size;
    begin();
    timer_at_emission = 2;
    what = WHAT;
    a = vp_cstr("a"); b = vp_bool("has_b") ? vp_cstr("b") : NULL; idx = vp_u32("index"); size = vp_u32("size");
    h_name = a; h_value = b;
    x_arg[0].str = 1; x_arg[0].p = a; x_arg[1].str = 1; x_arg[1].p = b; n_x = 2;
    switch (what) {
    case 0: x_sig = "add-header"; list = 1; cb_decoder_add_header(NULL, a, b, CTX); break;
    case 1: x_sig = "insert-header"; list = 1; n_x = 3; x_arg[0].str = 0; x_arg[0].u = idx; x_arg[1].p = a; x_arg[2].str = 1; x_arg[2].p = b;
        cb_decoder_insert_header(NULL, idx, a, b, CTX); break;
    case 2: x_sig = "change-header"; list = 1; n_x = 3; x_arg[1].str = 0; x_arg[1].u = (guint)(gint)idx; x_arg[2].str = 1; x_arg[2].p = b;
        cb_decoder_change_header(NULL, a, (gint)idx, b, CTX); break;
    case 3: x_sig = "delete-header"; list = 2; h_value = NULL; x_arg[1].str = 0; x_arg[1].u = (guint)(gint)idx; cb_decoder_delete_header(NULL, a, (gint)idx, CTX); break;
    case 4: x_sig = "change-from"; cb_decoder_change_from(NULL, a, b, CTX); break;
    case 5: x_sig = "add-recipient"; cb_decoder_add_recipient(NULL, a, b, CTX); break;
    case 6: x_sig = "delete-recipient"; n_x = 1; cb_decoder_delete_recipient(NULL, a, CTX); break;
    case 7: x_sig = "replace-body"; x_arg[0].str = 2; x_arg[1].str = 0;
#ifdef VP_N
        x_arg[0].str = 1; size = strlen(a) + 1;
#endif
        x_arg[1].u = size; cb_decoder_replace_body(NULL, a, size, CTX); break;
    case 8: x_sig = "quarantine"; n_x = 1; cb_decoder_quarantine(NULL, a, CTX); break;
    }
    check_common();
    body_untouched();
    VP_ASSERT(tm_live == timer0, "the final answer is still awaited");
    VP_ASSERT(P->status == (what == 8 ? MILTER_STATUS_QUARANTINE : status0) && P->envelope_recipient_status == rstatus0, "a modification is not a decision");
    VP_ASSERT(n_processed == 0 && n_written == 0, "the message goes on");
    if (state0 != ST(END_OF_MESSAGE)) { check_invalid(); VP_ASSERT(n_result_header == 0, "nothing is modified"); VP_REACH("invalid state"); return 0; }
    if (P->quitted) { VP_ASSERT(n_events == 0 && n_result_header == 0, "a milter that was told to quit is not heard"); VP_REACH("quitted"); return 0; }
    VP_ASSERT(n_reply == 1 && n_error == 0, "the modification is reported once");
    VP_ASSERT(n_result_header == (list >= 0), "the result has the header");
    if (list >= 0) VP_ASSERT(rh_list == list && rh_name == h_name && rh_value == h_value && P->message_result == MR, "the result has the header");
    VP_ASSERT(VP_IMPLIES(what == 8, P->message_result == MR && mr_quarantine == 1), "the result says quarantine");
    VP_REACH("modified");
    return 0;
}
#endif

#ifdef CASE_progress
int vp_main(void)
{
    begin(); x_sig = "progress"; timer_at_emission = 1;
    cb_decoder_progress(NULL, CTX);
    check_common(); body_untouched();
    VP_ASSERT(P->status == status0 && n_processed == 0, "progress is not a decision");
    if (state0 != ST(END_OF_MESSAGE)) { check_invalid(); VP_ASSERT(tm_live == timer0, "the answer is awaited as before"); VP_REACH("invalid state"); return 0; }
    if (P->quitted) { VP_ASSERT(n_events == 0 && tm_live == timer0, "a milter that was told to quit is not heard"); VP_REACH("quitted"); return 0; }
    VP_ASSERT(n_reply == 1 && n_error == 0 && n_timers == 1, "progress is reported");
    VP_REACH("progress");
    return 0;
}
#endif

#ifdef CASE_negotiate_reply
int vp_main(void)
{
    MilterMacrosRequests *r = vp_bool("requests") ? REQUESTS : NULL; gboolean neg0; int combined;
    begin(); x_sig = "negotiate-reply"; checks_negotiated = 1;
    if (vp_bool("option")) P->option = NULL;
    combine_ok = vp_bool("combine"); version_new = vp_u32("version_new");
    combined = P->option ? combine_ok : 1;
    neg0 = P->negotiated;
    n_x = 2; x_arg[0].u = (guint64)(gsize)OPT_NEW; x_arg[1].u = (guint64)(gsize)r;
    cb_decoder_negotiate_reply(NULL, OPT_NEW, r, CTX);
    check_common(); body_untouched();
    VP_ASSERT(P->status == status0 && n_processed == 0, "the negotiation is not a decision");
    if (!combined) {
        VP_ASSERT(n_error == 1 && last_error == MILTER_SERVER_CONTEXT_ERROR_NEWER_VERSION_REQUESTED && n_reply == 0 && P->negotiated == neg0 && n_requests == 0, "what was not offered cannot be negotiated");
        VP_REACH("refused");
        return 0;
    }
    VP_ASSERT(P->option == OPT ? n_combined == 1 : P->option == OPT_COPY && n_copied == 1, "the options agreed on are those of both");
    if (state0 != ST(NEGOTIATE)) { check_invalid(); VP_ASSERT(P->negotiated == neg0 && n_requests == 0, "nothing is negotiated"); VP_REACH("invalid state"); return 0; }
    if (P->quitted) { VP_ASSERT(n_events == 0 && P->negotiated == neg0, "a milter that was told to quit is not heard"); VP_REACH("quitted"); return 0; }
    VP_ASSERT(n_reply == 1 && n_error == 0 && P->negotiated && has_requests == r, "the milter has negotiated");
    VP_ASSERT(tm_live == timer1, "only the next command is awaited");
    VP_REACH("negotiated");
    return 0;
}
#endif
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
#ifdef CASE_wiring
/* every reply decoded reaches its function */
static int dec_, enc_; static struct { const char *n; GCallback f; } W[24]; static int nW;
MilterDecoder *milter_reply_decoder_new(void) { return (MilterDecoder *)&dec_; }
MilterEncoder *milter_command_encoder_new(void) { return (MilterEncoder *)&enc_; }
gulong g_signal_connect_data(gpointer inst, const gchar *name, GCallback f, gpointer data, GClosureNotify d, GConnectFlags fl)
{
    VP_ASSERT(inst == (gpointer)&dec_ && data == (gpointer)CTX && !(fl & G_CONNECT_SWAPPED), "the decoder of this milter");
    VP_ASSERT(nW < 24, "model: handlers"); vp_assume(nW < 24);
    W[nW].n = name; W[nW].f = f; return ++nW;
}
static void wired(const char *name, GCallback f)
{
    int i, n = 0;
    for (i = 0; i < nW; i++) if (vp_name_is(W[i].n, name)) n += W[i].f == f ? 1 : 100;
    VP_ASSERT(n == 1, "a reply has one function, its own");
}
int vp_main(void)
{
    static MilterServerContextClass klass; MilterAgentClass *ac = (MilterAgentClass *)&klass;
    setup();
    vp_class_init(milter_server_context_get_type(), &klass);
    VP_ASSERT(ac->flushed == flushed, "the milter's packets are followed");
    VP_ASSERT(ac->encoder_new((MilterAgent *)CTX) == (MilterEncoder *)&enc_, "commands are encoded");
    VP_ASSERT(ac->decoder_new((MilterAgent *)CTX) == (MilterDecoder *)&dec_, "replies are decoded");
#define WIRED(n) wired(#n, G_CALLBACK(cb_decoder_##n))
    WIRED(negotiate_reply); WIRED(continue); WIRED(reply_code); WIRED(temporary_failure); WIRED(reject); WIRED(accept); WIRED(discard);
    WIRED(add_header); WIRED(insert_header); WIRED(change_header); WIRED(delete_header); WIRED(change_from); WIRED(add_recipient);
    WIRED(delete_recipient); WIRED(replace_body); WIRED(progress); WIRED(quarantine); WIRED(connection_failure); WIRED(shutdown); WIRED(skip);
    VP_ASSERT(nW == 20, "no other");
    VP_REACH("wired");
    return 0;
}
#endif
