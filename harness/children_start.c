/* TUS: milter/core/milter-protocol.c */
/* Contracts of the functions that connect to a milter before it negotiates
 * (milter-manager-children.c): a milter that cannot be reached is tried again
 * at most once and then is neither awaited nor heard; the others go on. */
#include "vp_children.h"

MilterMacrosRequests *milter_macros_requests_new(void) { return NULL; }
static void vp_modification(const Ev *e) { }

static struct { GObject o[4]; } opt_obj, loop_obj;
#define OPT ((MilterOption *)&opt_obj)
#define LOOP ((MilterEventLoop *)&loop_obj)

GQuark milter_server_context_error_quark(void) { return 7; }
/* ---- handlers and timers ---- */
static struct { gpointer inst; const char *name; GCallback f; gpointer data; gulong id; } H[40];
static int nH; static int n_handlers_off;
gulong g_signal_connect_data(gpointer inst, const gchar *name, GCallback f, gpointer data, GClosureNotify d, GConnectFlags fl)
{
    VP_ASSERT(nH < 40, "model: handlers"); vp_assume(nH < 40);
    H[nH].inst = inst; H[nH].name = name; H[nH].f = f; H[nH].data = data; H[nH].id = nH + 1;
    return ++nH;
}
void g_signal_handler_disconnect(gpointer inst, gulong id)
{
    VP_ASSERT(id >= 1 && id <= (gulong)nH && H[id - 1].id == id && H[id - 1].inst == inst, "a handler is disconnected once");
    H[id - 1].id = 0; n_handlers_off++;
}
/* is f called with data when K[0] emits name? */
static int calls(const char *name, GCallback f, gpointer data)
{
    int i, n = 0;
    for (i = 0; i < nH; i++)
        if (H[i].id && H[i].inst == (gpointer)&K[0] && vp_name_is(H[i].name, name)) n += H[i].f == f && H[i].data == data ? 1 : 100;
    return n;
}
static int n_timer, n_timer_off; static GSourceFunc timer_f; static gpointer timer_data; static gdouble timer_at;
guint milter_event_loop_add_timeout(MilterEventLoop *l, gdouble t, GSourceFunc f, gpointer d)
{ VP_ASSERT(l == LOOP, "the session's event loop"); n_timer++; timer_f = f; timer_data = d; timer_at = t; return 77; }
gboolean milter_event_loop_remove(MilterEventLoop *l, guint id) { VP_ASSERT(id == 77, "the timer prepared"); n_timer_off++; return TRUE; }

/* ---- what the milter's own connection does ---- */
static int n_try, try_ok; 
gboolean milter_server_context_establish_connection(MilterServerContext *c, GError **e)
{
    VP_ASSERT(c == CTX(0), "the milter asked for"); n_try++;
    try_ok = any_bool("connected");
    if (!try_ok) *e = g_error_new(1, 1, "e");
    return try_ok;
}
gboolean milter_server_context_negotiate(MilterServerContext *c, MilterOption *o)
{ Kid *k = kid(c); VP_ASSERT(o == OPT, "the MTA's options are offered"); k->n_negotiated++; return TRUE; }
static int privilege; static int n_start, start_ok;
gboolean milter_manager_configuration_is_privilege_mode(MilterManagerConfiguration *c) { return privilege; }
static int n_neg;
#ifdef VP_A
gboolean gh_start(MilterManagerChildren *c, MilterManagerChild *k)
{ VP_ASSERT(c == C && k == (gpointer)&K[0] && privilege, "the milter is started if the manager may do so"); n_start++; start_ok = any_bool("started"); return start_ok; }
void gh_reply_negotiate(MilterManagerChildren *c) { VP_ASSERT(c == C, "this session"); n_neg++; }
#define DATA_GONE(d) (g_hash_table_lookup_extended(P->try_negotiate_ids, (d), NULL, NULL) == FALSE)
#else
/* natively: the real functions; no launcher, so a start fails */
void milter_option_remove_step(MilterOption *o, MilterStepFlags s) { n_neg++; }
MilterStepFlags milter_option_get_step_yes(MilterOption *o) { return 0; }
#define DATA_GONE(d) 1
#endif

static int others, finished_, ini_timer, ini_handlers;
static void setup(void)
{
    int i;
    C = (MilterManagerChildren *)&c_obj;
    P = &priv_;
    vp_set_private(C, MILTER_TYPE_MANAGER_CHILDREN, P);
    milter_manager_children_init(C);
    P->event_loop = LOOP;
    P->option = OPT;
    P->negotiated = TRUE;
    P->retry_connect_time = 5;
    P->state = P->processing_state = MILTER_SERVER_CONTEXT_STATE_NEGOTIATE;
    privilege = any_bool("privilege");
    finished_ = P->finished = any_bool("finished");
    for (i = 0; i < NK; i++) any_kid(i);
    K[0].negotiated = K[0].quitted = FALSE;
#ifdef VP_A
    q_w = 1; q_others = vp_u32("others"); vp_assume(q_others < 0x7fffffff); q_sync(P->reply_queue); others = q_others > 0;
#else
    others = any_bool("others");
    g_queue_push_tail(P->reply_queue, &K[0]);
    if (others) g_queue_push_tail(P->reply_queue, &K[1]);
#endif
}
static NegotiateData *waiting_data(int retry)
{
    NegotiateData *d = negotiate_data_new(C, (MilterManagerChild *)&K[0], OPT, retry);
    g_hash_table_insert(P->try_negotiate_ids, d, NULL);
    ini_handlers = nH;
    return d;
}
/* the milter is given up; the MTA gets the negotiation reply if it was the last */
static void check_given_up(void)
{
    VP_ASSERT(!AWAITED, "a milter that cannot be reached is not awaited");
    VP_ASSERT(K[0].n_gone == 1 && K[0].quitted, "it is never asked again");
    VP_ASSERT(n_timer == 0, "it is not tried again");
    VP_ASSERT(n_neg == (!others && !finished_), "the MTA gets the negotiation reply when no other milter is awaited");
    VP_REACH("given up");
}
static void check_retry(void)
{
    VP_ASSERT(AWAITED && K[0].n_gone == 0, "a milter that is tried again is still awaited");
    VP_ASSERT(n_neg == 0, "the MTA's negotiation waits for it");
    VP_ASSERT(n_timer == 1 && timer_f == retry_establish_connection && timer_at == 5, "it is tried again once, after the time configured");
    { NegotiateData *d = timer_data;
      VP_ASSERT(d->child == (gpointer)&K[0] && d->children == C && d->option == OPT && d->is_retry, "the same milter with the same options, for the last time");
      VP_ASSERT(calls("error", G_CALLBACK(cb_connection_error), d) % 100 == 1 && calls("connection-timeout", G_CALLBACK(cb_connection_timeout), d) % 100 == 1 &&
                calls("ready", G_CALLBACK(cb_ready), d) % 100 == 1, "its failure and success are noticed"); }
#ifndef CASE_connection_timeout
    VP_REACH("tried again");
#endif
}
static void establish(void)
{
    int retry;
    gboolean r;
    setup();
    retry = any_bool("retry");
    r = child_establish_connection((MilterManagerChild *)&K[0], OPT, C, retry);
    VP_ASSERT(n_try == 1 && r == try_ok, "one try");
    VP_ASSERT(n_error == !try_ok, "a failure is reported");
    if (r) {
        NegotiateData *d = nH ? H[0].data : NULL;
        VP_ASSERT(d && d->child == (gpointer)&K[0] && d->children == C && d->option == OPT && !d->is_retry == !retry, "the milter and the options are remembered");
        VP_ASSERT(calls("error", G_CALLBACK(cb_connection_error), d) == 1 && calls("connection-timeout", G_CALLBACK(cb_connection_timeout), d) == 1 &&
                  calls("ready", G_CALLBACK(cb_ready), d) == 1 && nH == 3, "failure and success are noticed, once");
        VP_ASSERT(AWAITED && n_timer == 0 && K[0].n_gone == 0, "the milter is awaited");
        VP_REACH("trying");
    } else if (retry) check_given_up();
    else check_retry();
}
static void failed(void)
{
    int retry, conn_error = 0, again;
    NegotiateData *d;
    setup();
    retry = any_bool("retry");
    d = waiting_data(retry);
#ifdef CASE_connection_error
    conn_error = any_bool("connection error");
    { GError *e = g_error_new(1, 1, "e");
      e->domain = conn_error ? MILTER_SERVER_CONTEXT_ERROR : 99;
      cb_connection_error((MilterErrorEmittable *)&K[0], e, d); }
    again = conn_error && !retry && privilege && start_ok;
#ifdef VP_A
    VP_ASSERT(n_start == (conn_error && !retry && privilege), "a milter that does not run is started, once");
#endif
    VP_ASSERT(n_error == (!conn_error || retry), "a failure that is not going to be repaired is reported");
#else
    cb_connection_timeout(CTX(0), d);
    again = 0;
#endif
    VP_ASSERT(DATA_GONE(d), "the try is over");
    if (again) check_retry(); else check_given_up();
}
#ifdef VP_A
static int n_est;
gboolean gh_establish(MilterManagerChild *c, MilterOption *o, MilterManagerChildren *s, gboolean retry)
{ VP_ASSERT(c == (gpointer)&K[0] && o == OPT && s == C && retry, "the same milter with the same options, for the last time"); n_est++; return any_bool("ok"); }
#else
static int n_est = 1;
#endif
static void retry(void)
{
    NegotiateData *d;
    gboolean again;
    setup();
    d = waiting_data(TRUE);
    again = retry_establish_connection(d);
    VP_ASSERT(!again, "one retry");
    VP_ASSERT(n_est == 1, "the milter is tried");
    VP_ASSERT(DATA_GONE(d), "the old try is over");
    VP_REACH("retried");
}
static void ready(void)
{
    NegotiateData *d;
    static const struct { const char *name; GCallback f; } want[] = {
#define W(n) { #n, G_CALLBACK(cb_ ## n) }
        W(negotiate_reply), W(continue), W(reply_code), W(temporary_failure), W(reject), W(accept), W(discard), W(add_header),
        W(insert_header), W(change_header), W(delete_header), W(change_from), W(add_recipient), W(delete_recipient), W(replace_body),
        W(progress), W(quarantine), W(connection_failure), W(shutdown), W(skip), W(stopped), W(writing_timeout), W(reading_timeout),
        W(end_of_message_timeout), W(error), W(finished) };
    guint i;
    setup();
    d = waiting_data(any_bool("retry"));
    cb_ready(CTX(0), d);
    VP_ASSERT(K[0].n_negotiated == 1, "the milter is asked to negotiate, once");
    VP_ASSERT(DATA_GONE(d), "the try is over");
    VP_ASSERT(AWAITED && n_neg == 0 && K[0].n_gone == 0, "its answer is awaited");
#ifdef VP_N
    ini_handlers = 0;
#endif
    for (i = 0; i < G_N_ELEMENTS(want); i++) {
        int n = calls(want[i].name, want[i].f, C);
#ifdef VP_A
        if (i == G_N_ELEMENTS(want) - 2) n %= 100;      /* the connecting phase listens to errors too until it is freed */
#endif
        VP_ASSERT(n == 1, "everything the milter says is heard, once");
    }
    VP_REACH("ready");
}
int vp_main(void)
{
#if defined(CASE_establish)
    establish();
#elif defined(CASE_connection_error) || defined(CASE_connection_timeout)
    failed();
#elif defined(CASE_retry)
    retry();
#elif defined(CASE_ready)
    ready();
#endif
    return 0;
}

#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
