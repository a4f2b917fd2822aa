/* TUS: milter/core/milter-finished-emittable.c */
/* CUT: milter/client/milter-client-context.c milter_client_context_replace_body 0 */
/* Contracts of the context of a milter towards the MTA (milter-client-context.c):
 * a command reaches the milter as what it is, with its arguments; what the
 * milter decides is sent to the MTA once, as decided. */
#ifdef CASE_replace_body
#define OWN_REPLACE_BODY
#endif
#include "vp_client.h"

/* -------------------------------------------------------------- signals */
static int n_signal, n_response, n_processed, n_timeout_signal; static MilterStatus answer_, response_;
static struct {
    const char *sig, *resp; MilterClientContextState s; MilterCommand mac; int result, quits_timer; gsize off, roff; gboolean acc;
    int n; struct { int str; gconstpointer p; guint64 u; } a[3];
} X;
static gboolean n_written_at_processed;
static MilterMacrosRequests *requests_given;
static gconstpointer bytes_data; static gsize bytes_n;
void vp_on_emit(VpEmit *e)
{
    int i;
    VP_ASSERT(e->instance == (gpointer)CTX, "this context's signal");
    if (vp_is(e, "message-processed")) {
        VP_ASSERT(e->a[0].p == MR && mr_status == P->status && mr_stop == 1, "the result of the message is reported with its status");
        n_processed++;
    } else if (vp_is(e, "timeout")) {
        VP_ASSERT(n_shutdown == 0, "the timeout is reported before the MTA is cut off");
        n_timeout_signal++;
    } else if (X.sig && vp_is(e, X.sig)) {
        n_signal++;
        VP_ASSERT(n_response == 0 && n_written == 0, "the milter is asked first");
        VP_ASSERT(e->sig->offset == X.off && (e->sig->acc == status_accumulator) == X.acc, "the milter's answer counts");
        VP_ASSERT((int)e->sig->n == X.n, "with its arguments");
        for (i = 0; i < X.n; i++) {
            if (X.a[i].str == 1) VP_ASSERT(X.a[i].p ? e->a[i].p && vp_streq(e->a[i].p, X.a[i].p) : !e->a[i].p, "with its arguments");
            else if (X.a[i].str == 2) VP_ASSERT(e->a[i].p == X.a[i].p && VP_UNCUT(e, i), "with its arguments");
            else if (X.a[i].str == 3) {
                if (!X.a[i].p) VP_ASSERT(e->a[i].p == NULL, "no bytes for no chunk");
                else {
                    VP_ASSERT(e->a[i].p != NULL, "the bytes of the chunk");
#ifdef VP_A
                    VP_ASSERT(bytes_data == X.a[i].p && bytes_n == X.a[i].u, "the bytes of the chunk");
#else
                    { gsize n; gconstpointer d = g_bytes_get_data(e->a[i].p, &n); VP_ASSERT(d == X.a[i].p && n == X.a[i].u, "the bytes of the chunk"); }
#endif
                }
            }
            else if (X.a[i].str == 4) requests_given = e->a[i].p;
            else VP_ASSERT(e->a[i].u == X.a[i].u, "with its arguments");
        }
        VP_ASSERT(P->state == X.s, "the milter is asked in the state of the command");
        VP_ASSERT(P->last_state == (X.s == ST(ABORT) || X.s == ST(QUIT) || !X.resp ? last0 : X.s), "the command is remembered");
        VP_ASSERT(tm_live == 0, "the MTA is not waited for while the milter works"); TIMER_OK;
        if (X.mac) VP_ASSERT(n_mctx == 1 && mctx == X.mac, "the macros are those of the command");
        else VP_ASSERT(n_mctx == 0, "the macros are those of the command before");
        if (X.result) VP_ASSERT(P->message_result == MR && mr_new == !mr0 && mr_start == !mr0, "the message has a result");
        if (X.result && X.s == ST(END_OF_MESSAGE)) VP_ASSERT(!P->quarantine_reason, "an end of message starts without quarantine");
        e->ret = answer_;
    } else {
        VP_ASSERT(X.resp && vp_is(e, X.resp) && n_response == 0 && n_signal == 1, "the answer is given once, after the milter was asked");
        VP_ASSERT(e->sig->offset == X.roff, "the answer is sent by the function for it");
        n_response++; response_ = (int)e->sig->n == 1 ? e->a[0].u : e->a[e->sig->n - 1].u;
        if (e->sig->n == 3) VP_ASSERT(e->a[0].p == X.a[0].p && e->a[1].p == (gpointer)requests_given, "the answer to the negotiation");
    }
}
#ifdef VP_A
static int bytes_;
GBytes *g_bytes_new_static(gconstpointer d, gsize n) { bytes_data = d; bytes_n = n; return (GBytes *)&bytes_; }
void g_bytes_unref(GBytes *b) { VP_ASSERT(b == (GBytes *)&bytes_, "model: bytes"); }
void g_hash_table_remove_all(GHashTable *t) { n_shelf_cleared++; }
#endif

/* ------------------------------------------------- decoder and handlers */
static int dec_; static struct { const char *n; GCallback f; } H_[20]; static int nH;
MilterDecoder *milter_command_decoder_new(void) { return (MilterDecoder *)&dec_; }
MilterEncoder *milter_reply_encoder_new(void) { return (MilterEncoder *)&encoder_; }
gulong g_signal_connect_data(gpointer inst, const gchar *name, GCallback f, gpointer data, GClosureNotify d, GConnectFlags fl)
{
    VP_ASSERT(inst == (gpointer)&dec_ && data == (gpointer)CTX && !(fl & G_CONNECT_SWAPPED), "the decoder of this context");
    VP_ASSERT(nH < 20, "model: handlers"); vp_assume(nH < 20);
    H_[nH].n = name; H_[nH].f = f;
    return ++nH;
}
static GCallback handler(const char *name)
{
    int i; GCallback f = NULL;
    for (i = 0; i < nH; i++) if (vp_name_is(H_[i].n, name)) { VP_ASSERT(!f, "a command has one function"); f = H_[i].f; }
    VP_ASSERT(f, "every command has a function");
    return f;
}
static GCallback begin(const char *name, const char *resp, MilterClientContextState s, MilterCommand mac, gsize off, gsize roff)
{
    setup();
    VP_ASSERT(((MilterAgentClass *)&klass_)->decoder_new((MilterAgent *)CTX) == (MilterDecoder *)&dec_, "commands are decoded");
    X.sig = name; X.resp = resp; X.s = s; X.mac = mac; X.result = 1; X.off = off; X.roff = roff; X.acc = TRUE;
    answer_ = vp_below("answer", 14);
    return handler(name);
}
#define OFF(f) G_STRUCT_OFFSET(MilterClientContextClass, f)
static void check_command(void)
{
    VP_ASSERT(n_signal == 1, "the milter is asked once");
    if (answer_ == MILTER_STATUS_PROGRESS) { VP_ASSERT(n_response == 0, "a milter that goes on working has not answered"); VP_REACH("progress"); }
    else { VP_ASSERT(n_response == 1 && response_ == answer_, "the milter's answer is given"); VP_REACH("answered"); }
    VP_ASSERT(n_written == 0 && n_encoded == 0 && n_error == 0 && n_processed == 0, "and nothing else");
    VP_ASSERT(tm_live == 0, "no timeout runs"); TIMER_OK;
    VP_ASSERT(P->state == X.s, "the state is that of the command");
}
#define ARG(i, k, ptr, num) (X.a[i].str = (k), X.a[i].p = (ptr), X.a[i].u = (num))
#if defined(CASE_text)
/* the commands with texts */
int vp_main(void)
{
    static const struct { const char *n, *r; int s; char mac; gsize off, roff; int args; } T[] = {
        { "helo", "helo-response", ST(HELO), 'H', OFF(helo), OFF(helo_response), 1 },
        { "envelope-from", "envelope-from-response", ST(ENVELOPE_FROM), 'M', OFF(envelope_from), OFF(envelope_from_response), 1 },
        { "envelope-recipient", "envelope-recipient-response", ST(ENVELOPE_RECIPIENT), 'R', OFF(envelope_recipient), OFF(envelope_recipient_response), 1 },
        { "unknown", "unknown-response", ST(UNKNOWN), 0, OFF(unknown), OFF(unknown_response), 1 },
        { "data", "data-response", ST(DATA), 'T', OFF(data), OFF(data_response), 0 },
        { "header", "header-response", ST(HEADER), 'L', OFF(header), OFF(header_response), 2 },
        { "end-of-header", "end-of-header-response", ST(END_OF_HEADER), 'N', OFF(end_of_header), OFF(end_of_header_response), 0 },
    };
    const char *a = vp_cstr("a"), *b = vp_cstr("b"); GCallback f;
    f = begin(T[WHAT].n, T[WHAT].r, T[WHAT].s, T[WHAT].mac, T[WHAT].off, T[WHAT].roff);
    X.n = T[WHAT].args; ARG(0, 1, a, 0); ARG(1, 1, b, 0);
    if (X.n == 0) ((void (*)(MilterDecoder *, gpointer))f)((MilterDecoder *)&dec_, CTX);
    else if (X.n == 1) ((void (*)(MilterDecoder *, const gchar *, gpointer))f)((MilterDecoder *)&dec_, a, CTX);
    else ((void (*)(MilterDecoder *, const gchar *, const gchar *, gpointer))f)((MilterDecoder *)&dec_, a, b, CTX);
    check_command();
    return 0;
}
#elif defined(CASE_connect)
int vp_main(void)
{
    static int address; const char *host = vp_cstr("host"); guint32 n = vp_u32("n");
    GCallback f = begin("connect", "connect-response", ST(CONNECT), 'C', OFF(connect), OFF(connect_response));
    X.n = 3; ARG(0, 1, host, 0); ARG(1, 0, NULL, (gsize)&address); ARG(2, 0, NULL, n);
    ((void (*)(MilterDecoder *, const gchar *, struct sockaddr *, socklen_t, gpointer))f)((MilterDecoder *)&dec_, host, (struct sockaddr *)&address, n, CTX);
    check_command();
    return 0;
}
#elif defined(CASE_body) || defined(CASE_end_of_message)
int vp_main(void)
{
    gsize n = vp_u32("n"); char *chunk; GCallback f;
#ifndef VP_A
    n %= 8;
#endif
    vp_assume(n <= VP_AMAX);
    chunk = vp_bool("chunk") ? vp_block("chunk", n) : NULL;
    vp_assume(chunk || n == 0);
#ifdef CASE_body
#define S2 "body-bytes"
#define O2 OFF(body_bytes)
    f = begin("body", "body-response", ST(BODY), 'B', OFF(body), OFF(body_response));
#else
#define S2 "end-of-message-bytes"
#define O2 OFF(end_of_message_bytes)
    f = begin("end-of-message", "end-of-message-response", ST(END_OF_MESSAGE), 'E', OFF(end_of_message), OFF(end_of_message_response));
#endif
#define CALL ((void (*)(MilterDecoder *, const gchar *, gsize, gpointer))f)((MilterDecoder *)&dec_, chunk, n, CTX)
    if (P->use_bytes) { X.sig = S2; X.off = O2; X.n = 1; ARG(0, 3, n ? chunk : NULL, n); CALL; }
    else { X.n = 2; ARG(0, 2, chunk, 0); ARG(1, 0, NULL, n); CALL; }
    check_command();
    return 0;
}
#elif defined(CASE_negotiate)
static int requests_;
MilterMacrosRequests *milter_macros_requests_new(void) { return (MilterMacrosRequests *)&requests_; }
int vp_main(void)
{
    GCallback f = begin("negotiate", "negotiate-response", ST(NEGOTIATE), 0, OFF(negotiate), OFF(negotiate_response));
    X.n = 2; ARG(0, 0, OPT_NEW, (gsize)OPT_NEW); ARG(1, 4, NULL, 0);
    ((void (*)(MilterDecoder *, MilterOption *, gpointer))f)((MilterDecoder *)&dec_, OPT_NEW, CTX);
    VP_ASSERT(P->option == OPT_COPY, "the options of the MTA are kept");
    VP_ASSERT(requests_given == (MilterMacrosRequests *)&requests_, "the milter may request macros");
    check_command();
    return 0;
}
#elif defined(CASE_define_macro)
static int n_set, n_defined; static int table_;
void milter_protocol_agent_set_macros_hash_table(MilterProtocolAgent *a, MilterCommand c, GHashTable *t)
{ VP_ASSERT((gpointer)a == (gpointer)CTX && c == 'M' && t == (GHashTable *)&table_, "the macros are kept for their command"); n_set++; }
int vp_main(void)
{
    GCallback f = begin("define-macro", NULL, 0, 0, OFF(define_macro), 0);
    X.s = state0; X.result = 0; X.n = 2; X.acc = FALSE;
    ARG(0, 0, NULL, 'M'); ARG(1, 0, NULL, (gsize)&table_);
    ((void (*)(MilterDecoder *, MilterCommand, GHashTable *, gpointer))f)((MilterDecoder *)&dec_, 'M', (GHashTable *)&table_, CTX);
    VP_ASSERT(n_signal == 1 && n_set == 1 && n_response == 0 && n_written == 0, "macros are not answered");
    VP_ASSERT(P->state == state0 && tm_live == 0, "macros are not a command"); TIMER_OK;
    VP_REACH("macros");
    return 0;
}
#elif defined(CASE_quit)
int vp_main(void)
{
    GCallback f = begin("quit", NULL, ST(QUIT), 0, 0, 0);
    X.sig = NULL;
    ((void (*)(MilterDecoder *, gpointer))f)((MilterDecoder *)&dec_, CTX);
    VP_ASSERT(P->state == ST(QUIT) && n_shutdown == 1, "the MTA's connection ends when it asks for it");
    VP_ASSERT(n_written == 0 && n_processed == 0, "without an answer");
    VP_REACH("quit");
    return 0;
}
#elif defined(CASE_abort)
int vp_main(void)
{
    Toks b;
    GCallback f = begin("abort", "abort-response", ST(ABORT), 0, OFF(abort), OFF(abort_response));
    X.result = 0; X.n = 1; ARG(0, 0, NULL, state0);
    ((void (*)(MilterDecoder *, gpointer))f)((MilterDecoder *)&dec_, CTX);
    check_command();
    VP_ASSERT(n_macros_cleared == 1 && !P->message_result, "nothing of the aborted message is left");
#ifdef VP_A
    VP_ASSERT(n_shelf_cleared == 1, "nothing of the aborted message is left");
#else
    VP_ASSERT(g_hash_table_size(P->mail_transaction_shelf) == 0, "nothing of the aborted message is left");
#endif
    b = buffered();
    VP_ASSERT(b.n == 0 && !P->buffering, "the modifications of the aborted message are not those of the next one");
    return 0;
}
#endif

/* ------------------------------------------------------------- answers */
#if defined(CASE_response) || defined(CASE_end_of_message_response)
static char *code_; static int n_format;
gchar *milter_utils_format_reply_code(guint code, const gchar *ext, const gchar *text)
{
    VP_ASSERT(code == P->reply_code && ext == P->extended_reply_code && text == P->reply_message, "the reply code remembered");
    n_format++;
    return g_strdup(code_);
}
/* the packet for a status; 0: none */
static int packet_of(MilterStatus s)
{
    switch (s) {
    case MILTER_STATUS_CONTINUE: case MILTER_STATUS_DEFAULT: return 'c';
    case MILTER_STATUS_TEMPORARY_FAILURE: return P->reply_code / 100 == 4 ? 'y' : 't';
    case MILTER_STATUS_REJECT: return P->reply_code / 100 == 5 ? 'y' : 'r';
    case MILTER_STATUS_ACCEPT: return 'a';
    case MILTER_STATUS_DISCARD: return 'd';
    case MILTER_STATUS_SKIP: return 's';
    default: return 0;
    }
}
static void check_packet(int k)
{
    VP_ASSERT(E_[0].kind == k && E_[0].b == NULL, "the answer is sent as what it is");
    if (k == 'y') VP_ASSERT(n_format == 1, "a refusal is sent with the reply code remembered for it");
}
static MilterStatus begin_response(void)
{
    MilterStatus s;
    setup();
    code_ = vp_cstr("code");
    P->reply_code = vp_u32("code");
    if (vp_bool("sensible")) P->reply_code = 400 + P->reply_code % 200;
    P->extended_reply_code = vp_bool("ext") ? "5.7.1" : NULL;
    P->reply_message = vp_bool("text") ? "no" : NULL;
    s = vp_below("answer", 14);
    return s;
}
#endif
#if defined(CASE_response)
int vp_main(void)
{
    int what = vp_below("what", 9), k; MilterStatus s = begin_response();
    MilterClientContextState after = 0;
    switch (what) {
#define R(i, f, S) case i: after = ST(S##_REPLIED); klass_.f##_response(CTX, s); break
    R(0, connect, CONNECT); R(1, helo, HELO); R(2, envelope_from, ENVELOPE_FROM); R(3, envelope_recipient, ENVELOPE_RECIPIENT);
    R(4, data, DATA); R(5, unknown, UNKNOWN); R(6, header, HEADER); R(7, end_of_header, END_OF_HEADER); R(8, body, BODY);
    }
    k = packet_of(s);
    VP_ASSERT(P->state == after && P->last_state == last0, "the command is answered");
    VP_ASSERT(P->status == (s == MILTER_STATUS_DEFAULT ? MILTER_STATUS_CONTINUE : s), "the answer is known");
    if (k) {
        VP_ASSERT(n_encoded == 1 && n_written == 1 && toks_eq(&W_[0], 1, T_NEW, 0), "the answer is sent once");
        check_packet(k);
        VP_ASSERT(write_state == (int)after, "the command is answered");
        VP_ASSERT(n_error == (write_fail == 1), "a failed write is an error");
        VP_ASSERT(tm_live && n_timers == 1, "the MTA is given its time"); TIMER_OK;
        VP_REACH("answer");
    } else {
        VP_ASSERT(n_encoded == 0 && n_written == 0 && n_error == 0 && tm_live == timer0, "no answer is sent");
        TIMER_OK;
        VP_REACH("no answer");
    }
    VP_ASSERT(buffered().n == buffering0 && P->buffering == buffering0 && n_processed == 0, "and nothing else");
    return 0;
}
#elif defined(CASE_end_of_message_response)
int vp_main(void)
{
    MilterStatus s = begin_response(); int k, w = 0, q = quarantine0 != NULL; Toks b;
    klass_.end_of_message_response(CTX, s);
    k = packet_of(s);
    VP_ASSERT(P->state == ST(END_OF_MESSAGE_REPLIED), "the message is answered");
    VP_ASSERT(P->status == (s == MILTER_STATUS_DEFAULT ? MILTER_STATUS_CONTINUE : s), "the answer is known");
    VP_ASSERT(n_processed == mr0 && !P->message_result, "the message is reported once");
    b = buffered();
    VP_ASSERT(b.n == 0 && !P->buffering, "the modifications of the message are sent");
    if (buffering0) {
        VP_ASSERT(n_written >= 1 && toks_eq(&W_[0], 1, T_OLD, 0), "the modifications go before the answer");
        w = 1;
        if (write_fail == 1) {
            VP_ASSERT(n_written == 1 && n_error >= 1, "a message whose modifications cannot be sent is not answered");
            VP_REACH("failed modifications");
            return 0;
        }
    }
    if (!k) { VP_ASSERT(n_written == w && n_encoded == 0, "no answer is sent"); VP_REACH("no answer"); return 0; }
    VP_ASSERT(n_written == w + 1 && n_encoded == 1 + q, "the answer is sent once");
    check_packet(k);
    if (q) {
        VP_ASSERT(E_[1].kind == 'q' && E_[1].a == quarantine0, "the quarantine is sent with its reason");
        VP_ASSERT(toks_eq(&W_[w], 2, T_NEW + 1, T_NEW), "the quarantine goes right before the answer");
        VP_REACH("quarantine");
    } else
        VP_ASSERT(toks_eq(&W_[w], 1, T_NEW, 0), "the answer is sent once");
#ifdef VP_A
    VP_ASSERT(!o_live, "the packet is dropped");
#endif
    VP_ASSERT((n_error > 0) == (write_fail == n_written), "a failed write is an error");
    VP_REACH("answer"); TIMER_OK;
    return 0;
}
#elif defined(CASE_negotiate_response)
static int requests_;
int vp_main(void)
{
    MilterStatus s; MilterOption *o, *option0; MilterMacrosRequests *m;
    setup();
    s = vp_below("answer", 14); o = vp_bool("same") ? P->option : OPT_NEW; m = vp_bool("requests") ? (MilterMacrosRequests *)&requests_ : NULL;
    vp_assume(o != NULL);
    option0 = P->option;
    klass_.negotiate_response(CTX, o, m, s);
    if (s == MILTER_STATUS_DEFAULT) s = MILTER_STATUS_ALL_OPTIONS;
    VP_ASSERT(P->status == s && P->state == ST(NEGOTIATE_REPLIED) && P->last_state == last0, "the negotiation is answered");
    if (s == MILTER_STATUS_CONTINUE || s == MILTER_STATUS_ALL_OPTIONS) {
        VP_ASSERT(P->option == (s == MILTER_STATUS_CONTINUE ? o : option0), "what was negotiated is known");
        VP_ASSERT(n_written == 1 && n_encoded == 1 && E_[0].kind == 'O' && E_[0].a == P->option && E_[0].b == m, "the options negotiated are sent, with the macros requested");
        VP_REACH("options");
    } else if (s == MILTER_STATUS_REJECT) { VP_ASSERT(n_written == 1 && n_encoded == 1 && E_[0].kind == 'r', "a refusal is sent"); VP_REACH("refusal"); }
    else VP_ASSERT(n_written == 0 && n_encoded == 0 && P->option == option0, "no answer");
    VP_ASSERT(VP_IMPLIES(n_written, toks_eq(&W_[0], 1, T_NEW, 0)), "the answer is sent once"); TIMER_OK;
    return 0;
}
#elif defined(CASE_abort_response)
int vp_main(void)
{
    MilterStatus s; int pass;
    setup();
    s = vp_below("answer", 14);
    klass_.abort_response(CTX, s);
    if (s == MILTER_STATUS_DEFAULT || s == MILTER_STATUS_NOT_CHANGE) s = MILTER_STATUS_ABORT;
    pass = status0 != MILTER_STATUS_REJECT && status0 != MILTER_STATUS_TEMPORARY_FAILURE && status0 != MILTER_STATUS_DISCARD;
    VP_ASSERT(P->state == ST(ABORT_REPLIED), "the abort is done");
    VP_ASSERT(n_written == 0 && n_encoded == 0 && n_processed == 0 && tm_live == timer0, "an abort is not answered");
    if (last0 >= ST(NEGOTIATE) && last0 < ST(END_OF_MESSAGE) && MILTER_STATUS_IS_PASS(status0)) VP_ASSERT(P->status == s, "the message was aborted");
    else VP_ASSERT(P->status == status0, "an abort does not change what was decided");
    VP_ASSERT(VP_IMPLIES(!pass, P->status == status0), "an abort does not change a refusal");
    VP_REACH("abort");
    return 0;
}
#elif defined(CASE_timeout)
int vp_main(void)
{
    setup();
    VP_ASSERT(!cb_timeout(CTX), "a timeout runs out once");
    VP_ASSERT(n_timeout_signal == 1 && n_shutdown == 1, "an MTA that stays silent is reported and cut off");
    VP_REACH("timeout");
    return 0;
}

/* -------------------------------------------------------- modifications */
#elif defined(CASE_modification)
/* 0 add header, 1 insert header, 2 change header, 3 delete header, 4 change
 * from, 5 add recipient, 6 delete recipient */
int vp_main(void)
{
    static const char kinds[] = "himne+-";
    const char *a = vp_bool("a") ? vp_cstr("a") : NULL, *b = vp_bool("b") ? vp_cstr("b") : NULL; guint32 i = vp_u32("i");
    gboolean ok = FALSE, right; guint32 need = 0; GError *error = NULL; Toks t; int args_ok;
    setup();
    enc_fail = vp_bool("enc_fail");
    args_ok = a != NULL;
    switch (WHAT) {
    case 0: ok = milter_client_context_add_header(CTX, a, b, &error); need = 0x01; args_ok = a && b; break;
    case 1: ok = milter_client_context_insert_header(CTX, i, a, b, &error); need = 0x01; args_ok = a && b; break;
    case 2: ok = milter_client_context_change_header(CTX, a, i, b, &error); need = 0x10; break;
    case 3: ok = milter_client_context_delete_header(CTX, a, i, &error); need = 0x10; break;
    case 4: ok = milter_client_context_change_from(CTX, a, b, &error); need = 0x40; args_ok = a && a[0]; break;
    case 5: ok = milter_client_context_add_recipient(CTX, a, b, &error); need = 0x04; args_ok = a && a[0]; break;
    case 6: ok = milter_client_context_delete_recipient(CTX, a, &error); need = 0x08; args_ok = a && a[0]; break;
    }
    if (WHAT < 4 && a && !a[0]) return 0;       /* a header without a name: up to the encoder */
    right = args_ok && state0 == ST(END_OF_MESSAGE) && P->option && (action_ & need);
    VP_ASSERT(P->state == state0 && P->status == status0 && n_processed == 0, "a modification does not answer the message");
    t = buffered();
    if (!right) {
        VP_ASSERT(!ok && error, "a modification that is not possible is an error");
        VP_ASSERT(n_encoded == 0 && n_written == 0 && t.n == buffering0 && P->buffering == buffering0, "and has no effect");
        VP_REACH("refused");
        return 0;
    }
    VP_ASSERT(n_encoded == 1 && E_[0].a == a, "the modification is sent as what it is");
    VP_ASSERT(VP_IMPLIES(WHAT == 1 || WHAT == 2 || WHAT == 3, E_[0].n == i) && VP_IMPLIES(WHAT != 3 && WHAT != 6, E_[0].b == b), "the modification is sent as what it is");
    VP_ASSERT(E_[0].kind == kinds[WHAT] || (WHAT == 2 && !b && E_[0].kind == 'n'), "the modification is sent as what it is");
    if (enc_fail) { VP_ASSERT(!ok && n_written == 0 && t.n == buffering0, "a modification without a packet fails"); VP_REACH("no packet"); return 0; }
    if (n_written) {
        VP_ASSERT(n_written == 1 && (buffering0 ? toks_eq(&W_[0], 2, T_OLD, T_NEW) : toks_eq(&W_[0], 1, T_NEW, 0)), "modifications are sent in their order");
        VP_ASSERT(t.n == 0 && !P->buffering, "and once");
        VP_ASSERT(ok == (write_fail != 1) && VP_IMPLIES(!ok, n_error >= 1), "a failed write is an error");
        VP_REACH("written");
    } else {
        VP_ASSERT(ok && P->buffering && (buffering0 ? toks_eq(&t, 2, T_OLD, T_NEW) : toks_eq(&t, 1, T_NEW, 0)), "a modification waits for the answer of the message");
        VP_ASSERT(toks_len(&t) <= P->packet_buffer_size, "no more waits than the buffer holds");
        VP_REACH("buffered");
    }
    VP_ASSERT(VP_IMPLIES(ok, !error), "a modification made is not an error");
    TIMER_OK;
    return 0;
}
#elif defined(CASE_progress)
int vp_main(void)
{
    gboolean ok;
    setup();
    ok = milter_client_context_progress(CTX);
    VP_ASSERT(n_encoded == 1 && E_[0].kind == 'p' && n_written == 1 && toks_eq(&W_[0], 1, T_NEW, 0), "progress is sent at once");
    VP_ASSERT(ok == (write_fail != 1) && n_error == !ok, "a failed write is an error");
    VP_ASSERT(P->state == state0 && P->status == status0 && buffered().n == buffering0, "progress is not an answer");
    VP_REACH("progress"); TIMER_OK;
    return 0;
}
#elif defined(CASE_quarantine)
int vp_main(void)
{
    const char *r = vp_cstr("reason");
    setup();
    VP_ASSERT(milter_client_context_quarantine(CTX, r), "a message may be quarantined");
    VP_ASSERT(P->quarantine_reason && P->quarantine_reason != r && vp_streq(P->quarantine_reason, r), "the reason is kept for the answer");
    VP_ASSERT(n_written == 0 && n_encoded == 0 && P->status == status0 && P->state == state0, "the quarantine waits for the answer");
    VP_REACH("quarantine");
    return 0;
}
#elif defined(CASE_reset_reply)
int vp_main(void)
{
    setup();
    P->reply_code = vp_u32("code"); P->extended_reply_code = vp_bool("ext") ? vp_cstr("ext") : NULL; P->reply_message = vp_bool("text") ? vp_cstr("text") : NULL;
    milter_client_context_reset_reply(CTX);
    VP_ASSERT(P->reply_code == 0 && !P->extended_reply_code && !P->reply_message, "no reply code is remembered");
    VP_REACH("reset");
    return 0;
}
#elif defined(CASE_set_reply)
/* X.YYY.ZZZ */
static int ext_ok(const char *x, guint code)
{
    int i = 0, g, n;
    if (x[0] != '2' && x[0] != '4' && x[0] != '5') return 0;
    if (x[1] != '.') return 0;
    i = 2;
    for (g = 0; g < 2; g++) {
        for (n = 0; n < 3 && x[i] >= '0' && x[i] <= '9'; n++) i++;
        if (n == 0) return 0;
        if (g == 0) { if (x[i] != '.') return 0; i++; }
    }
    return x[i] == '\0' && (guint)(x[0] - '0') == code / 100;
}
int atoi(const char *s)
{ int r = 0, i; for (i = 0; i < 4 && s[i] >= '0' && s[i] <= '9'; i++) r = r * 10 + (s[i] - '0'); return r; }
int vp_main(void)
{
    static char ext[14]; guint code = vp_u32("code"), code0; char *ext0, *text0; gboolean ok, right; GError *error = NULL;
    const char *text = vp_bool("text") ? vp_cstr("new") : NULL, *x = vp_bool("extended") ? ext : NULL; int i;
    setup();
    for (i = 0; i < 13; i++) ext[i] = vp_u8("x");
#ifndef VP_A
    if (vp_bool("sensible")) for (i = 0; i < 13; i++) ext[i] = ext[i] < 0 ? 0 : i == 0 ? "245"[ext[i] % 3] : i == 1 ? '.' : ".0123456789\0\0"[ext[i] % 13];
    if (vp_bool("class")) code = (ext[0] - '0') * 100 + code % 100;
#endif
    code0 = P->reply_code = vp_u32("code0"); ext0 = P->extended_reply_code = vp_bool("ext") ? vp_cstr("ext0") : NULL; text0 = P->reply_message = vp_bool("text") ? vp_cstr("text0") : NULL;
    ok = milter_client_context_set_reply(CTX, code, x, text, &error);
    right = code >= 400 && code <= 599 && (!x || ext_ok(x, code));
    VP_ASSERT(ok == right && !error == ok, "a reply code is 4xx or 5xx, its extended code is of its class");
    if (ok) {
        VP_ASSERT(P->reply_code == code, "the reply code is remembered");
        VP_ASSERT(x ? P->extended_reply_code && P->extended_reply_code != x && strcmp(P->extended_reply_code, x) == 0 : !P->extended_reply_code, "with its extended code");
        VP_ASSERT(text ? P->reply_message && P->reply_message != text && vp_streq(P->reply_message, text) : !P->reply_message, "with its text");
        VP_REACH("remembered");
    } else {
        VP_ASSERT(P->reply_code == code0 && P->extended_reply_code == ext0 && P->reply_message == text0, "a wrong reply code has no effect");
        VP_REACH("wrong");
    }
    VP_ASSERT(n_written == 0 && P->status == status0, "remembering it sends nothing");
    return 0;
}
#elif defined(CASE_accumulator)
/* the answers of several handlers: see status_accumulator() */
int vp_main(void)
{
    int h = vp_below("handler", 14), acc = vp_below("acc", 14), r; gboolean on;
    GValue a, b;
    memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    a.data[0].v_long = acc; b.data[0].v_long = h;
    on = status_accumulator(NULL, &a, &b, NULL);
    r = h == MILTER_STATUS_NOT_CHANGE ? acc : h;
    VP_ASSERT((int)a.data[0].v_long == r, "the last answer counts, no opinion does not");
    VP_ASSERT(on == (r == MILTER_STATUS_DEFAULT || r == MILTER_STATUS_CONTINUE || r == MILTER_STATUS_ALL_OPTIONS), "a decision is final");
    VP_REACH("accumulated");
    return 0;
}
gint g_value_get_enum(const GValue *v) { return (gint)v->data[0].v_long; }
void g_value_set_enum(GValue *v, gint i) { v->data[0].v_long = i; }
#endif

#ifdef CASE_replace_body
/* every byte of the new body, in order, in packets */
static const char *body_; static gsize body_n, done_; static int stuck, n_chunks, sent;
void milter_reply_encoder_encode_replace_body(PS, const gchar *b, gsize n, gsize *packed)
{
    gsize k;
    VP_ASSERT((gpointer)e == (gpointer)&encoder_, "with the encoder of this session");
    VP_ASSERT(n == body_n - done_ && VP_IMPLIES(n, b == body_ + done_), "the rest of the body is offered to the encoder");
#ifdef VP_A
    k = nondet_vp_u32();
    vp_assume(k <= n && (k > 0 || n == 0 || stuck));
    n_encoded = 0;              /* the encoder has one buffer */
#else
    k = n < 3 ? n : 3; if (stuck) k = 0;
    n_encoded = n_chunks % (NT - T_NEW);
#endif
    *packed = k;
    if (k == 0 && n > 0) { *packet = NULL; *size = 0; return; }
    n_chunks++;
    ENC('b', b, NULL, k);
    done_ += k;
}
#ifdef VP_A
static gsize rest1;
void vp_cut_body(int *phase, gsize *rest)
{
    VP_ASSERT(*rest == body_n - done_, "what was sent is not sent again");
    VP_ASSERT(P->buffering || n_written, "every packet is sent or waits");
    VP_ASSERT(*phase == 0 ? n_chunks == 1 : n_chunks == 1, "one packet in each round");
    if (*phase == 0) {
        done_ = nondet_vp_u64();
        vp_assume(done_ <= body_n);
        *rest = body_n - done_;
        rest1 = *rest; n_chunks = 0;
        /* what is buffered: any number of packets of this body */
        B_.t.n = 0; B_.g.len = 0; n_written = 0; sent = 1;
        P->buffering = vp_bool("buffering");
        if (P->buffering) { B_.t.n = 1; B_.t.tok[0] = T_OLD; B_.g.len = tsize[T_OLD]; }
    } else {
        VP_ASSERT(*rest < rest1, "every packet takes some of the body");
        VP_REACH("another packet"); vp_assume(0);
    }
    (*phase)++;
}
#endif
int vp_main(void)
{
    gboolean ok, right; GError *error = NULL; Toks t;
    body_n = vp_u32("n");
#ifdef VP_A
    vp_assume(body_n <= VP_AMAX);
#else
    body_n %= 9;
#endif
    body_ = vp_block("body", body_n);
    setup();
    stuck = vp_bool("stuck"); if (write_fail) write_fail = 1;
    vp_assume(!stuck || body_n > 0);
#ifndef VP_A
    P->packet_buffer_size = vp_bool("big") ? 1000 : 0; buffering0 = P->buffering = FALSE; g_string_truncate(P->buffered_packets, 0);
    if (P->packet_buffer_size == 0 && write_fail == 0) vp_assume(body_n <= 6);
#endif
    ok = milter_client_context_replace_body(CTX, body_, body_n, &error);
    right = state0 == ST(END_OF_MESSAGE) && P->option && (action_ & 0x02);
    if (!right) {
        VP_ASSERT(!ok && error && n_chunks == 0 && n_written == 0 && buffered().n == buffering0, "a modification that is not possible is an error and has no effect");
        VP_REACH("refused");
        return 0;
    }
    if (ok) {
        VP_ASSERT(done_ == body_n, "the whole body is sent");
        VP_ASSERT(P->buffering || n_written || sent, "even an empty one");
        VP_REACH("replaced");
    } else {
        VP_ASSERT(stuck || n_error, "a new body is sent unless that fails");
        VP_REACH("failed");
    }
    t = buffered();
    VP_ASSERT(P->buffering == (t.n >= 1), "the body waits for the answer");
    return 0;
}
#endif
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
