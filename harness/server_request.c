/* TUS: milter/core/milter-reply-signals.c */
/* CUT: milter/server/milter-server-context.c flushed 1 */
/* CUT: milter/server/milter-server-context.c filter_macros 0 */
/* Contracts of the requests to one milter (milter-server-context.c): a request
 * reaches the milter exactly once, as asked and with its macros, unless its
 * stop condition holds or the milter does not want it; what is written is
 * awaited. */
#ifdef CASE_macros
#define VP_LOG_LEVEL vp_log_level()
#endif
static int vp_log_level(void);
#ifdef CASE_macros
#define VP_OWN_MACROS 1
#endif
#include "vp_server.h"

#ifdef ONLY_STOP
#define HAS_STOP 1
#define REACH_SENT(n)
#else
#define REACH_SENT(n) VP_REACH(n)
#if !defined(CASE_quit) && !defined(CASE_abort)
#define HAS_BUSY 1
#if !defined(CASE_negotiate)
#if !defined(CASE_unknown)
#define HAS_STOP 1
#endif
#if !defined(CASE_end_of_message)
#define HAS_SKIP 1
#endif
#endif
#endif
#endif
static int vp_log_level(void) { return vp_bool("log") ? MILTER_LOG_LEVEL_ALL : 0; }
static int x_skip;
static MilterServerContextState S_;     /* the state the request leads to */
static MilterState MS_;
static const char *x_reply;
static int n_next_states(void) { GList *l; int n = 0; for (l = P->next_states; l; l = l->next) n++; return n; }
static MilterServerContextState next_at(int i) { GList *l = P->next_states; while (i-- > 0) l = l->next; return GPOINTER_TO_UINT(l->data); }
static MilterServerContextState first_next;

static void nested(void) { }
static void reply_signal(VpEmit *e)
{
    VP_ASSERT(x_reply && vp_is(e, x_reply), "only the answer of a milter that does not want the command is given");
    VP_ASSERT(P->state == S_, "the state has changed when the command is answered");
    n_reply++;
}
static int n_out, o_state, order;
static void transited(MilterServerContextState s)
{
    n_out++; o_state = s;
#if defined(CASE_flushed) && defined(VP_A)
    VP_ASSERT(order == 1, "a state is reported once it is entered"); order = 2;
#endif
}

static void request(MilterCommand cmd, gconstpointer a, gconstpointer b, gsize n, MilterServerContextState s, MilterState ms, const char *stop, const char *reply, int no_step)
{
    setup();
    X.cmd = cmd; X.a = a; X.b = b; X.n = n; S_ = s; MS_ = ms; x_stop = stop; x_reply = reply;
    enc_fail = vp_bool("enc_fail"); write_fail = vp_bool("write_fail"); stop_answer = stop ? vp_bool("stop") : 0;
#ifdef ONLY_STOP
    vp_assume(stop_answer);
#endif
    has_macros = vp_bool("macros");
#ifdef VP_N
    if (has_macros) { macros_ = g_hash_table_new(g_str_hash, g_str_equal); g_hash_table_insert(macros_, "i", "1"); }
#endif
    P->next_states = next_states();
    if (n_next0) first_next = next_at(0);
    else if (cmd != 'T' && vp_bool("option")) P->option = NULL;
    x_skip = no_step && (!P->option || (step_ & no_step) || (cmd == 'T' && version_ < 4));
}
/* the macros context is set by define_macro() of the protocol agent for the
 * commands without one here */
static void check(gboolean ok)
{
    int message = MS_ != 0, aborting = S_ == MILTER_SERVER_CONTEXT_STATE_ABORT || S_ == MILTER_SERVER_CONTEXT_STATE_QUIT;
    int busy = !aborting && timer0 && !(n_next0 && !needs_reply(last_next));
    VP_ASSERT(n_stop_asked == (x_stop != NULL), "the stop condition is asked once");
    if (message) {
        int in_message = S_ >= MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM && S_ <= MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE;
        VP_ASSERT(mr_new == !mr0, "the message has one result");
        VP_ASSERT(n_processed == (stop_answer && in_message), "a stopped message is reported once, any other not yet");
        if (!(stop_answer && in_message)) VP_ASSERT(mr_state == (int)MS_ && P->message_result == MR, "the result follows the message");
        else VP_ASSERT(!P->message_result, "a reported result is done with");
    } else
        VP_ASSERT(n_processed == 0 && mr_new == 0, "no message ends here");
    if (stop_answer) {
        VP_ASSERT(ok && n_stopped == 1 && P->status == MILTER_STATUS_STOP && P->state == S_, "a milter whose condition holds is stopped");
        VP_ASSERT(n_written == 0 && n_encoded == 0 && n_reply == 0 && n_error == 0, "nothing more is asked of a stopped milter");
        VP_ASSERT(n_next_states() == n_next0 && tm_live == timer0, "nothing is awaited of it");
        TIMER_OK;
#ifdef HAS_STOP
        VP_REACH("stopped");
#endif
        return;
    }
    VP_ASSERT(n_stopped == 0, "only its condition stops a milter");
    if (x_skip) {
        VP_ASSERT(ok && n_reply == 1 && P->state == S_, "a command the milter does not want is answered at once");
        VP_ASSERT(n_written == 0 && n_encoded == 0 && n_error == 0, "and not sent");
        VP_ASSERT(n_next_states() == n_next0 && tm_live == timer0, "nothing is awaited for it");
        TIMER_OK;
#ifdef HAS_SKIP
        VP_REACH("not wanted");
#endif
        return;
    }
    VP_ASSERT(n_reply == 0, "the milter answers itself");
    VP_ASSERT(P->state == state0, "the state changes when the command has been sent");
    VP_ASSERT(n_encoded == 1, "the command is encoded once");
    if ((enc_fail && X.cmd != 'B') || busy) {
        VP_ASSERT(!ok && n_written == 0, "a command is not written while the milter has another");
        VP_ASSERT(n_next_states() == n_next0 && tm_live == timer0, "the command being processed goes on");
        VP_ASSERT((n_error != 0) == !(enc_fail && X.cmd != 'B') && VP_IMPLIES(n_error, last_error == MILTER_SERVER_CONTEXT_ERROR_BUSY), "a busy milter is an error");
        TIMER_OK;
#ifdef HAS_BUSY
        VP_REACH("busy");
#endif
        return;
    }
    VP_ASSERT(n_written == 1, "the command is written once");
    if (X.cmd == 'U' || X.cmd == 'O' || X.cmd == 'Q' || X.cmd == 'A') VP_ASSERT(n_prepended == 0, "the command has no macros");
    else
#ifdef VP_A
        VP_ASSERT(n_prepended == 1, "its macros go with it");
    VP_ASSERT(!o_live, "the packet is dropped");
#else
        VP_ASSERT(n_prepended == has_macros, "its macros go with it");
#endif
    if (write_fail) {
        VP_ASSERT(!ok && n_error == 1 && last_error == MILTER_SERVER_CONTEXT_ERROR_IO_ERROR, "a failed write is an error");
        VP_ASSERT(tm_live == 0 && n_next_states() == n_next0, "nothing is awaited for it");
        TIMER_OK;
        REACH_SENT("write failed");
        return;
    }
    VP_ASSERT(ok && n_error == 0, "the command is on its way");
    VP_ASSERT(n_next_states() == n_next0 + 1 && next_at(n_next0) == S_, "its state follows when it has been sent");
    VP_ASSERT(VP_IMPLIES(n_next0, next_at(0) == first_next) && VP_IMPLIES(n_next0 == 2, next_at(1) == last_next), "the commands before it keep their turn");
    if (aborting) VP_ASSERT(tm_live == timer0, "no answer is awaited");
    else VP_ASSERT(tm_live && tm_live != timer0 && tm_fn == cb_writing_timeout, "sending it may not take for ever");
    TIMER_OK;
    REACH_SENT("sent");
}

#if defined(VP_A) && !defined(CASE_flushed) && !defined(CASE_macros)
void vp_cut_flushed(int *phase, GList **node) { }
void vp_cut_filter(int *phase, GList **symbol) { }
#endif
#ifdef CASE_connect
int vp_main(void)
{
    static int address; const char *host = vp_cstr("host");
    socklen_t n = vp_u32("addrlen");
    request('C', host, &address, n, MILTER_SERVER_CONTEXT_STATE_CONNECT, 0, "stop-on-connect", "continue", MILTER_STEP_NO_CONNECT);
    check(milter_server_context_connect(CTX, host, (struct sockaddr *)&address, n));
    return 0;
}
#endif
#ifdef CASE_helo
int vp_main(void)
{
    const char *f = vp_cstr("fqdn");
    request('H', f, NULL, 0, MILTER_SERVER_CONTEXT_STATE_HELO, 0, "stop-on-helo", "continue", MILTER_STEP_NO_HELO);
    check(milter_server_context_helo(CTX, f));
    return 0;
}
#endif
#ifdef CASE_envelope_from
int vp_main(void)
{
    const char *f = vp_cstr("from");
    request('M', f, NULL, 0, MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM, MILTER_STATE_ENVELOPE_FROM, "stop-on-envelope-from", "continue", MILTER_STEP_NO_ENVELOPE_FROM);
    check(milter_server_context_envelope_from(CTX, f));
    VP_ASSERT(n_from == 1 && mr_from == f, "the result names the sender");
    VP_ASSERT(!P->skip_body && P->envelope_recipient_status == MILTER_STATUS_DEFAULT, "what a milter answered to the message before does not count for this one");
    VP_ASSERT(P->processing_message == !stop_answer, "the milter is processing the message, unless its condition excludes it");
    if (!stop_answer) VP_ASSERT(P->status == MILTER_STATUS_NOT_CHANGE, "a message starts without a decision");
    return 0;
}
#endif
#ifdef CASE_envelope_recipient
int vp_main(void)
{
    const char *f = vp_cstr("to");
    request('R', f, NULL, 0, MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT, MILTER_STATE_ENVELOPE_RECIPIENT, "stop-on-envelope-recipient", "continue", MILTER_STEP_NO_ENVELOPE_RECIPIENT);
    check(milter_server_context_envelope_recipient(CTX, f));
    VP_ASSERT(n_recipient == 1 && mr_recipient_arg == f, "the result names the recipient");
    VP_ASSERT(P->current_recipient && P->current_recipient != f && vp_streq(P->current_recipient, f), "the recipient asked about is kept");
    return 0;
}
#endif
#ifdef CASE_data
int vp_main(void)
{
    request('T', NULL, NULL, 0, MILTER_SERVER_CONTEXT_STATE_DATA, MILTER_STATE_DATA, "stop-on-data", "continue", MILTER_STEP_NO_DATA);
    check(milter_server_context_data(CTX));
    return 0;
}
#endif
#ifdef CASE_unknown
int vp_main(void)
{
    const char *f = vp_cstr("command");
    request('U', f, NULL, 0, MILTER_SERVER_CONTEXT_STATE_UNKNOWN, 0, NULL, "continue", MILTER_STEP_NO_UNKNOWN);
    check(milter_server_context_unknown(CTX, f));
    return 0;
}
#endif
#ifdef CASE_header
int vp_main(void)
{
    const char *n = vp_cstr("name"), *v = vp_cstr("value");
    request('L', n, v, 0, MILTER_SERVER_CONTEXT_STATE_HEADER, MILTER_STATE_HEADER, "stop-on-header", "continue", MILTER_STEP_NO_HEADERS);
    check(milter_server_context_header(CTX, n, v));
    VP_ASSERT(n_result_header == 1 && rh_list == 0 && rh_name == n && rh_value == v, "the result has the header");
    return 0;
}
#endif
#ifdef CASE_end_of_header
int vp_main(void)
{
    request('N', NULL, NULL, 0, MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER, MILTER_STATE_END_OF_HEADER, "stop-on-end-of-header", "continue", MILTER_STEP_NO_END_OF_HEADER);
    check(milter_server_context_end_of_header(CTX));
    return 0;
}
#endif
#ifdef CASE_body
int vp_main(void)
{
#ifdef VP_A
    static char some;
    chunk_ = &some; chunk_n = nondet_vp_u32(); vp_assume(chunk_n <= VP_AMAX);
    request('B', NULL, NULL, 0, MILTER_SERVER_CONTEXT_STATE_BODY, MILTER_STATE_BODY, "stop-on-body", "skip", MILTER_STEP_NO_BODY);
#else
    request('B', NULL, NULL, 0, MILTER_SERVER_CONTEXT_STATE_BODY, MILTER_STATE_BODY, "stop-on-body", "skip", MILTER_STEP_NO_BODY);
    chunk_n = vp_below("chunk", 8); chunk_ = (gchar *)stream_ + b1;
#endif
    gsize body0 = b1, total = b1 + chunk_n;
    int will_send = !stop_answer && !x_skip;
    if (will_send) b1 = total;
    gboolean ok = milter_server_context_body(CTX, chunk_, chunk_n);
    check(ok);
    VP_ASSERT(n_body_size == 1 && mr_body_size == chunk_n, "the result counts the body");
    if (!will_send) { BODY_KEPT("a chunk the milter does not want is not kept"); return 0; }
    if (ok) {
        b0 = sent1;
        BODY_KEPT("what was not sent yet is kept in order");
        VP_ASSERT(sent0 == 0 && sent1 == (total < MAX_PACKET ? total : MAX_PACKET), "the body goes on from where it was");
        VP_ASSERT(g_list_length(P->body_response_queue) == 1u + queue0 && GPOINTER_TO_UINT(g_list_last(P->body_response_queue)->data) == 1, "one more answer is awaited");
        REACH_SENT("body sent");
    }
    return 0;
}
#endif
#ifdef CASE_end_of_message
int vp_main(void)
{
    const char *c = "x"; gsize n = vp_below("n", 2);
    request('E', c, NULL, n, MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE, MILTER_STATE_END_OF_MESSAGE, "stop-on-end-of-message", NULL, 0);
    check(milter_server_context_end_of_message(CTX, c, n));
    VP_ASSERT(n_body_size == 1 && mr_body_size == n, "the result counts the body");
    return 0;
}
#endif
#ifdef CASE_quit
int vp_main(void)
{
    request('Q', NULL, NULL, 0, MILTER_SERVER_CONTEXT_STATE_QUIT, 0, NULL, NULL, 0);
    check(milter_server_context_quit(CTX));
    VP_ASSERT(P->quitted, "a milter that was told to quit is done with");
    return 0;
}
#endif
#ifdef CASE_abort
int vp_main(void)
{
    request('A', NULL, NULL, 0, MILTER_SERVER_CONTEXT_STATE_ABORT, 0, NULL, NULL, 0);
    check(milter_server_context_abort(CTX));
    VP_ASSERT(!P->processing_message, "the milter has no message any more");
    VP_ASSERT(P->status == status0, "the abort is not a decision before it is sent");
    return 0;
}
#endif
#ifdef CASE_negotiate
int vp_main(void)
{
    request('O', OPT_NEW, NULL, 0, MILTER_SERVER_CONTEXT_STATE_NEGOTIATE, 0, NULL, NULL, 0);
    check(milter_server_context_negotiate(CTX, OPT_NEW));
    VP_ASSERT(n_copied == 1 && P->option == OPT_COPY, "what was offered is remembered");
    return 0;
}
#endif
#ifdef CASE_next_state
/* the command has been sent */
int vp_main(void)
{
    MilterServerContextState s = vp_below("next_state", 16), st0; int need, n;
    setup();
    write_fail = vp_bool("write_fail");
    has_macros = 0; X.cmd = 'B'; S_ = s;
    P->process_body_count = 0; P->sent_end_of_message = FALSE;
    st0 = state0; need = needs_reply(s); n = b1 != 0;
    process_next_state(CTX, s);
    if (s == MILTER_SERVER_CONTEXT_STATE_INVALID) {
        VP_ASSERT(n_error == 1 && last_error == MILTER_SERVER_CONTEXT_ERROR_INVALID_STATE && P->state == state0, "there is no such state");
        VP_REACH("invalid");
        return 0;
    }
    TIMER_OK;
    if (s == MILTER_SERVER_CONTEXT_STATE_ABORT && pm0) {
        VP_ASSERT(P->state == state0 && P->status == status0 && P->message_result == (mr0 ? MR : NULL) && n_macros_cleared == 0 && n_processed == 0 && P->processing_message,
                  "the abort of the message before does not touch the message that has begun");
        VP_REACH("abort of the message before");
        return 0;
    }
    VP_ASSERT(P->state == s, "the milter is in the state of the command");
    if (s == MILTER_SERVER_CONTEXT_STATE_ABORT) {
        int undecided = (status0 == MILTER_STATUS_DEFAULT || status0 == MILTER_STATUS_NOT_CHANGE || status0 == MILTER_STATUS_CONTINUE) &&
            st0 >= MILTER_SERVER_CONTEXT_STATE_DEFINE_MACRO && st0 < MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE;
        VP_ASSERT(P->status == (!undecided ? status0 : st0 == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT && rstatus0 != MILTER_STATUS_DEFAULT ? rstatus0 : MILTER_STATUS_ABORT),
                  "an undecided message is aborted");
        VP_ASSERT(n_processed == mr0 && !P->message_result, "the aborted message is reported once");
        VP_ASSERT(!P->skip_body && !P->processing_message && P->envelope_recipient_status == MILTER_STATUS_DEFAULT && P->body->len == 0 && !P->body_response_queue && n_macros_cleared == 1,
                  "nothing of the message is left for the next one");
        VP_ASSERT(tm_live == 0, "nothing is awaited");
        VP_REACH("aborted");
        return 0;
    }
    VP_ASSERT(P->status == status0 && P->message_result == (mr0 ? MR : NULL) && n_processed == 0 && P->skip_body == skip0 && P->processing_message == pm0 && n_macros_cleared == 0,
              "the message goes on");
    VP_ASSERT(n_shutdown == (s == MILTER_SERVER_CONTEXT_STATE_QUIT), "the connection is closed when the milter has been told to quit");
    if (s == MILTER_SERVER_CONTEXT_STATE_BODY && n && !need) {
        VP_ASSERT(n_written == 1, "the rest of the chunk follows at once when no answer is awaited");
        if (write_fail) VP_ASSERT(n_error == 1 && last_error == MILTER_SERVER_CONTEXT_ERROR_IO_ERROR && !tm_live, "a failed write is an error");
        else {
            b0 = sent1;
            BODY_KEPT("what was not sent yet is kept in order");
            VP_ASSERT(tm_live && tm_fn == cb_writing_timeout && GPOINTER_TO_UINT(g_list_last(P->next_states)->data) == MILTER_SERVER_CONTEXT_STATE_BODY, "its state follows when it has been sent");
        }
        VP_REACH("rest of the chunk");
        return 0;
    }
    VP_ASSERT(n_written == 0 && n_error == 0, "nothing more is written");
    BODY_KEPT("the body is kept");
    if (s == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) VP_ASSERT(tm_live && tm_fn == cb_end_of_message_timeout, "the final answer is awaited");
    else if (s == MILTER_SERVER_CONTEXT_STATE_QUIT) VP_ASSERT(!tm_live, "no answer is awaited");
    else if (s == MILTER_SERVER_CONTEXT_STATE_BODY) VP_ASSERT(n ? tm_live && tm_fn == cb_reading_timeout : !tm_live, "the answer to a part of the chunk is awaited");
    else VP_ASSERT(need ? tm_live && tm_fn == cb_reading_timeout : !tm_live, "the answer is awaited if there will be one");
    VP_REACH("next state");
    return 0;
}
#endif

#ifdef CASE_flushed
/* flushed(): invariant of its loop: the states before the node were entered
 * and reported in order, and the last one's answer was given */
static GList N1, N2;
static MilterServerContextState cur;
static int ended;
#ifdef VP_A
void gh_process(MilterServerContext *c, MilterServerContextState s)
{ VP_ASSERT(c == CTX && s == cur && order == 0 && !P->next_states, "the state of the command sent is entered"); order = 1; }
void gh_continue(MilterServerContext *c, MilterServerContextState s)
{ VP_ASSERT(c == CTX && s == cur && order == 2, "the answer of a milter that does not reply follows its state"); order = 3; }
void vp_cut_flushed(int *phase, GList **node)
{
    if (*phase == 0) {
        VP_ASSERT(*node == &N1, "every command sent is taken, from the first");
        *phase = 1;
        /* any of the commands */
        cur = 1 + vp_below("cur", 15);
        N1.data = GUINT_TO_POINTER(cur);
        N1.next = vp_bool("more") ? &N2 : NULL;
        *node = vp_bool("done") ? NULL : &N1;
        ended = !*node;
        order = 0;
        return;
    }
    VP_ASSERT(order == (N1.next ? 2 : 3), "the command's state is entered, reported and the last one answered");
    VP_ASSERT(*node == N1.next, "the next command follows");
    VP_REACH("step");
    vp_assume(0);
}
void vp_cut_filter(int *phase, GList **symbol) { }
#endif
int vp_main(void)
{
    setup();
#ifdef VP_A
    P->next_states = &N1;
    flushed((MilterAgent *)CTX);
    VP_ASSERT(ended || !N1.next, "no command is left out");     /* with another one, the way ends at the head of the loop */
    VP_REACH("done");
#else
    { int i, c[3]; int n = vp_below("n", 4);
      P->body = body_string(b1 = 0);
      x_reply = "continue";
      for (i = 0; i < n; i++) { c[i] = 1 + vp_below("c", 13); P->next_states = g_list_append(P->next_states, GUINT_TO_POINTER(c[i])); }
      pm0 = P->processing_message = FALSE;
      X.cmd = 'B'; S_ = n ? c[n - 1] : 0;
      flushed((MilterAgent *)CTX);
      VP_ASSERT(n_out == n, "every command sent is reported");
      if (n) {
          VP_ASSERT(o_state == c[n - 1] && P->state == c[n - 1], "in order");
          int nr = (c[n-1] == MILTER_SERVER_CONTEXT_STATE_HEADER || c[n-1] == MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER || (c[n-1] == MILTER_SERVER_CONTEXT_STATE_BODY && !P->body->len && n_written == 0)) && !needs_reply(c[n-1]);
          if (n_written == 0) VP_ASSERT(n_reply == nr, "a milter that does not reply goes on");
      }
      VP_REACH("done"); }
#endif
    return 0;
}
#endif
#ifdef CASE_without_reply
int vp_main(void)
{
    MilterServerContextState s = vp_below("s", 16); int e;
    setup();
    S_ = s; P->state = s; x_reply = "continue";
    e = !needs_reply(s) && (s == MILTER_SERVER_CONTEXT_STATE_HEADER || s == MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER || (s == MILTER_SERVER_CONTEXT_STATE_BODY && b1 == 0));
    continue_without_reply(CTX, s);
    VP_ASSERT(n_reply == e, "a milter that does not reply goes on when its command (all of it) was sent");
    BODY_KEPT("the body is kept");
    VP_REACH("asked");
    return 0;
}
#endif
#ifdef CASE_timeout
int vp_main(void)
{
    int w = vp_below("which", 3); gboolean again;
    setup();
    x_timeout = w == 0 ? "writing-timeout" : w == 1 ? "reading-timeout" : "end-of-message-timeout";
    again = w == 0 ? cb_writing_timeout(CTX) : w == 1 ? cb_reading_timeout(CTX) : cb_end_of_message_timeout(CTX);
    VP_ASSERT(n_timeout_signal == 1 && n_shutdown == 1, "a milter that is too slow is reported and cut off");
    VP_ASSERT(n_events == 1 && !again, "once");
    VP_REACH("timeout");
    return 0;
}
#endif

#ifdef CASE_macros
/* prepend_macro() and filter_macros(): the macros the milter asked for (all,
 * when it asked for none in particular) go before the command */
static GHashTable *wanted; static int n_filtered, dropped;
#ifdef VP_A
static int mtab, ftab; static GList SN1, SN2; static const char *val; static int msize, fsize;
#define MACROS ((GHashTable *)&mtab)
#define FILTERED ((GHashTable *)&ftab)
guint gh_size(GHashTable *t)
{ VP_ASSERT(t == MACROS || (t == FILTERED && !dropped), "a table in use"); return t == MACROS ? msize : fsize; }
GHashTable *gh_new(GHashFunc h, GEqualFunc e, GDestroyNotify k, GDestroyNotify v)
{ VP_ASSERT(h == g_str_hash && e == g_str_equal, "names are compared as strings"); return FILTERED; }
gpointer gh_lookup(GHashTable *t, gconstpointer k)
{ VP_ASSERT(t == MACROS && k == SN1.data, "the value of the macro asked for"); return (gpointer)val; }
static int n_ins, left;
gboolean gh_insert(GHashTable *t, gpointer k, gpointer v)
{
    VP_ASSERT(t == FILTERED && vp_streq(k, SN1.data) && vp_streq(v, val), "a macro asked for goes with its value");
    n_ins++; return TRUE;
}
void gh_unref(GHashTable *t) { VP_ASSERT(t == FILTERED && !dropped, "only the selection is dropped"); dropped = 1; }
void vp_cut_filter(int *phase, GList **symbol)
{
    if (*phase == 0) {
        VP_ASSERT(*symbol == &SN1, "every macro asked for is looked up");
        *phase = 1;
        *symbol = vp_bool("more") ? &SN1 : NULL;
        left = *symbol != NULL;
        return;
    }
    VP_ASSERT(n_ins == (val != NULL), "a macro that is set is selected");
    VP_ASSERT(*symbol == SN1.next, "the next macro follows");
    VP_REACH("macro");
    vp_assume(0);
}
void vp_cut_flushed(int *phase, GList **node) { }
gchar *milter_utils_inspect_hash_string_string(GHashTable *t) { VP_ASSERT(!dropped, "the macros logged are still there"); return NULL; }
static void macros_encoded(GHashTable *t)
{
    VP_ASSERT(!dropped, "the macros are still there");
    VP_ASSERT(t == wanted, "the macros the milter asked for are sent");
    n_filtered++;
}
#else
gchar *milter_utils_inspect_hash_string_string(GHashTable *t) { return g_strdup_printf("%u", (guint)*(volatile guint8 *)t); }    /* seen by the address sanitizer */
static void macros_encoded(GHashTable *t)
{
    const char *k[3] = {"i", "j", "{auth}"}; int i; guint n = 0;
    for (i = 0; i < 3; i++) {
        int e = g_hash_table_lookup(macros_, k[i]) != NULL && (!has_requests || g_list_find_custom(symbols_, k[i], (GCompareFunc)strcmp));
        n += e;
        VP_ASSERT((g_hash_table_lookup(t, k[i]) != NULL) == e, "the macros the milter asked for are sent");
        if (e) VP_ASSERT(!strcmp(g_hash_table_lookup(t, k[i]), g_hash_table_lookup(macros_, k[i])), "with their values");
    }
    VP_ASSERT(n == g_hash_table_size(t), "no other macro is sent");
    n_filtered++;
}
#endif
int vp_main(void)
{
    static const char cmds[] = "CHMRTLNBE"; GString *g; int expect; const gchar *p; gsize n;
    setup();
    X.cmd = cmds[vp_below("cmd", 9)];
    has_requests = vp_bool("requests") ? REQUESTS : NULL;
#ifdef VP_A
    int any = vp_bool("symbols");
    msize = vp_below("msize", 100); fsize = vp_below("fsize", 100);
    macros_ = vp_bool("table") ? MACROS : NULL;
    SN1.data = vp_cstr("symbol"); SN1.next = vp_bool("next") ? &SN2 : NULL;
    val = vp_bool("set") ? vp_cstr("value") : NULL;
    symbols_ = any ? &SN1 : NULL;
    expect = macros_ && msize && (!has_requests || (any && fsize));
    wanted = has_requests ? FILTERED : MACROS;
#else
    const char *k[3] = {"i", "j", "{auth}"}; int i; expect = 0;
    if (vp_bool("table")) macros_ = g_hash_table_new(g_str_hash, g_str_equal);
    for (i = 0; i < 3; i++) {
        int in = vp_bool("set"), ask = vp_bool("ask");
        if (macros_ && in) g_hash_table_insert(macros_, (gpointer)k[i], "value");
        if (ask) symbols_ = g_list_append(symbols_, (gpointer)k[i]);
        if (macros_ && in && (ask || !has_requests)) expect = 1;
    }
#endif
    give(SEG_COMMAND, &p, &n);
    g = g_string_new_len(p, n);
    prepend_macro(CTX, g, X.cmd);
#ifdef VP_A
    VP_ASSERT(!left || !SN1.next, "no macro is left out");      /* with another one, the way ends at the head of the loop */
#endif
    VP_ASSERT(n_macro == expect && n_filtered == expect, "macros are sent if there are any to send");
    VP_ASSERT(g->len == cmd_n + (expect ? mac_n : 0), "before the command");
#ifdef VP_A
    VP_ASSERT(O_.n == 1 + expect && O_.seg[expect] == SEG_COMMAND && VP_IMPLIES(expect, O_.seg[0] == SEG_MACRO), "before the command");
#endif
    if (expect) VP_REACH("macros sent"); else VP_REACH("no macros");
    return 0;
}
#endif
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
#ifdef CASE_accumulator
/* any handler of a condition that says stop decides; the others are asked */
static gboolean acc_in, acc_out; static int n_set; static GValue v_in, v_out;
gboolean g_value_get_boolean(const GValue *v) { VP_ASSERT(v == &v_in, "the handler's answer"); return acc_in; }
void g_value_set_boolean(GValue *v, gboolean b) { VP_ASSERT(v == &v_out, "the condition's answer"); acc_out = b; n_set++; }
int vp_main(void)
{
    int i, n = 0; gboolean more;
    setup();
    for (i = 0; i < vp_nsigs; i++) {
        const char *s = vp_sigs[i].name; 
        if (s[0] == 's' && s[1] == 't' && s[2] == 'o' && s[3] == 'p' && s[4] == '-') {
            n++;
            VP_ASSERT(vp_sigs[i].acc == stop_on_accumulator && vp_sigs[i].ret == G_TYPE_BOOLEAN, "the answers of a condition's handlers are combined");
        }
    }
    VP_ASSERT(n == 9, "every command that can stop a milter has its condition");
    acc_in = vp_bool("answer"); acc_out = !acc_in;
    more = stop_on_accumulator(NULL, &v_out, &v_in, NULL);
    VP_ASSERT(acc_out == acc_in && more == !acc_in, "stop is final; continue lets the next handler decide");
    VP_REACH("combined");
    return 0;
}
#endif
