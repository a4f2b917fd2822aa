/* TUS: milter/core/milter-protocol.c */
/* Contracts of the callbacks that take a modification of one milter and of the
 * function that tells the MTA about the modifications at the end of the message
 * (milter-manager-children.c).
 *
 * The kept headers are a ghost (their contracts are C07's) that records what is
 * asked of it. The commands of the message are any subset of the four there are,
 * so nothing here is bounded. */
#include "vp_children.h"

static int hdrs_, original_;
#define H ((MilterHeaders *)&hdrs_)
#define H0 ((MilterHeaders *)&original_)
enum { H_ADD = 1, H_INSERT, H_CHANGE, H_DELETE };
#ifdef VP_N
#define COPY(x) g_strdup(x)
#else
#define COPY(x) ((char *)(x))
static const char *cat_a, *cat_b; static char *cat_;
gchar *g_strconcat(const gchar *a, ...)
{
    va_list ap;
    cat_a = a;
    va_start(ap, a);
    cat_b = va_arg(ap, const char *);
    VP_ASSERT(va_arg(ap, const char *) == NULL, "model: two texts are joined");
    va_end(ap);
    return cat_ = vp_cstr("joined");
}
#endif
static struct { int n, what; const char *name, *value; guint index; } h_;
static gboolean asked(MilterHeaders *h, int what, const char *name, guint index, const char *value)
{
    VP_ASSERT(h == H, "the headers the milters see are changed");
    h_.n++; h_.what = what; h_.name = COPY(name); h_.value = COPY(value); h_.index = index;
    return TRUE;
}
/* a space and v */
static int is_spaced(const char *s, const char *v)
{
#ifdef VP_N
    return s && s[0] == ' ' && !strcmp(s + 1, v);
#else
    return s == cat_ && s && cat_a[0] == ' ' && cat_a[1] == 0 && cat_b == v;
#endif
}
static int same(const char *a, const char *b) { return (!a && !b) || (a && b && (a == b || vp_streq(a, b))); }
gboolean milter_headers_add_header(MilterHeaders *h, const gchar *n, const gchar *v) { return asked(h, H_ADD, n, 0, v); }
gboolean milter_headers_insert_header(MilterHeaders *h, guint i, const gchar *n, const gchar *v) { return asked(h, H_INSERT, n, i, v); }
gboolean milter_headers_change_header(MilterHeaders *h, const gchar *n, guint i, const gchar *v) { return asked(h, H_CHANGE, n, i, v); }
gboolean milter_headers_delete_header(MilterHeaders *h, const gchar *n, guint i) { return asked(h, H_DELETE, n, i, NULL); }
gboolean milter_headers_append_header(MilterHeaders *h, const gchar *n, const gchar *v) { VP_ASSERT(0, "not used here"); return FALSE; }
MilterHeaders *milter_headers_new(void) { VP_ASSERT(0, "not used here"); return NULL; }
MilterHeaders *milter_headers_copy(MilterHeaders *h) { VP_ASSERT(0, "not used here"); return NULL; }
guint milter_headers_length(MilterHeaders *h) { VP_ASSERT(h == H, "the headers the milters see"); return vp_u32("length"); }
static int opt_, space_session;
MilterStepFlags milter_option_get_step(MilterOption *o) { VP_ASSERT((gpointer)o == (gpointer)&opt_, "the options of the session"); return space_session ? MILTER_STEP_HEADER_VALUE_WITH_LEADING_SPACE : 0; }
MilterMacrosRequests *milter_macros_requests_new(void) { return NULL; }

static Ev told[4]; static int n_told, headers_told, body_told;
static void vp_modification(const Ev *e)
{
    VP_ASSERT(n_told < 4, "the MTA is told once");
    vp_assume(n_told < 4);
    told[n_told] = *e;
#ifdef VP_N
    if (e->p0) told[n_told].p0 = g_strdup(e->p0);
    if (e->p1) told[n_told].p1 = g_strdup(e->p1);
#endif
    n_told++;
}
#ifdef CASE_end_of_message
gboolean gh_body(MilterManagerChildren *c) { VP_ASSERT(c == C && n_told == 0, "the body is sent before the changes of the envelope"); body_told++; return TRUE; }
void gh_headers(MilterManagerChildren *c) { VP_ASSERT(c == C && n_told == 0, "the headers are sent before the changes of the envelope"); headers_told++; }
#endif

static const MilterCommand cmds[4] = { MILTER_COMMAND_HEADER, MILTER_COMMAND_END_OF_HEADER, MILTER_COMMAND_BODY, MILTER_COMMAND_END_OF_MESSAGE };
static int inq[4];
static char *old_from, *old_par, *old_q; static int had_body;
static void session(void)
{
    int i; static GList q[4];
    vp_witness();
    C = (MilterManagerChildren *)&c_obj;
    P = &priv_;
    vp_set_private(C, MILTER_TYPE_MANAGER_CHILDREN, P);
    milter_manager_children_init(C);
    for (i = 0; i < NK; i++) any_kid(i);
    K[0].negotiated = TRUE; K[0].quitted = FALSE;
    P->option = (MilterOption *)&opt_; space_session = vp_bool("space session");
    P->headers = H; P->original_headers = H0;
    for (i = 0; i < 4; i++) inq[i] = i == 3 || vp_bool("cmd");
#ifdef VP_A
    {
        GList *next = NULL;
        for (i = 3; i >= 0; i--) if (inq[i]) { q[i].data = GINT_TO_POINTER(cmds[i]); q[i].next = next; if (next) next->prev = &q[i]; next = &q[i]; }
        P->command_queue = next;
    }
#else
    for (i = 0; i < 4; i++) if (inq[i]) P->command_queue = g_list_append(P->command_queue, GINT_TO_POINTER(cmds[i]));
    (void)q;
#endif
    P->state = P->processing_state = MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE;
    P->replaced_body = vp_bool("replaced");
    had_body = P->replaced_body;
    if (vp_bool("from")) {
        old_from = vp_cstr("old from"); P->change_from = g_strdup(old_from);
        if (vp_bool("parameters")) { old_par = vp_cstr("old parameters"); P->change_from_parameters = g_strdup(old_par); }
    }
    if (vp_bool("quarantine")) { old_q = vp_cstr("old reason"); P->quarantine_reason = g_strdup(old_q); }
}
static void check_queue(void)
{
    GList *l; int i;
    for (i = 0, l = P->command_queue; i < 4; i++) {
        if (!inq[i]) continue;
        VP_ASSERT(l && l->data == GINT_TO_POINTER(cmds[i]), "the parts of the message stay, in order; new headers are given to the next milters");
        vp_assume(l != NULL);
        l = l->next;
    }
    VP_ASSERT(!l, "no other part");
}
#ifndef CASE_end_of_message
static int env_as_was(void) { return same(P->change_from, old_from) && same(P->change_from_parameters, old_par); }
static int q_as_was(void) { return same(P->quarantine_reason, old_q); }
int vp_main(void)
{
    char *a, *b; guint32 index; int eom, ignored;
    session();
    eom = vp_bool("eom");
    K[0].state = eom ? MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE : vp_below("state", 16);
    eom = K[0].state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE;
    ignored = !eom || K[0].evaluation;
    a = vp_cstr("a"); b = vp_bool("none") ? NULL : vp_cstr("b");
    index = vp_u32("index");
#if defined(CASE_progress)
    ignored = !eom;
    cb_progress(CTX(0), C);
    VP_ASSERT(n_progress == !ignored, "a sign of life is passed on, once");
#elif defined(CASE_add_header)
    cb_add_header(CTX(0), a, b, C);
#elif defined(CASE_insert_header)
    cb_insert_header(CTX(0), index, a, b, C);
#elif defined(CASE_change_header)
    cb_change_header(CTX(0), a, index, b, C);
#elif defined(CASE_delete_header)
    cb_delete_header(CTX(0), a, index, C);
#elif defined(CASE_change_from)
    cb_change_from(CTX(0), a, b, C);
#elif defined(CASE_add_recipient)
    cb_add_recipient(CTX(0), a, b, C);
#elif defined(CASE_delete_recipient)
    cb_delete_recipient(CTX(0), a, C);
#elif defined(CASE_quarantine)
    cb_quarantine(CTX(0), a, C);
#endif
    VP_ASSERT(n_reply == 0 && n_error == 0 && K[0].n_sent == 0 && K[0].n_abort == 0, "a modification is no answer");
    VP_ASSERT(K[0].n_quit == !eom && K[1].n_quit == 0, "a milter may change the message at its end only, else it is told to quit");
    VP_ASSERT(P->headers == H && P->original_headers == H0 && P->replaced_body == had_body, "all else stays");
#ifndef CASE_progress
    VP_ASSERT(n_progress == 0, "a modification is not a sign of life");
#endif
    if (ignored) {
        VP_ASSERT(h_.n == 0 && n_told == 0 && env_as_was() && q_as_was(), "it has no effect outside the end of the message or in evaluation mode");
        check_queue();
        VP_REACH("ignored");
        return 0;
    }
#if defined(CASE_add_header) || defined(CASE_insert_header) || defined(CASE_change_header)
    VP_ASSERT(h_.n == 1 && n_told == 0, "the kept headers are changed, once");
#ifdef CASE_add_header
    VP_ASSERT(h_.what == H_ADD, "a header is added");
#elif defined(CASE_insert_header)
    VP_ASSERT(h_.what == H_INSERT && h_.index == index, "a header is inserted at the position given");
#else
    VP_ASSERT(h_.what == H_CHANGE && h_.index == index, "the header of the index given is changed");
#endif
    VP_ASSERT(same(h_.name, a), "the header of the name given");
    if (!b) VP_ASSERT(!h_.value, "it gets the value given");
    else if (space_session && !K[0].own_space && b[0] != ' ') {
        VP_ASSERT(is_spaced(h_.value, b), "the value gets the leading space the MTA expects and the milter does not know of");
        VP_REACH("leading space");
    } else
        VP_ASSERT(same(h_.value, b), "it gets the value given");
#ifdef CASE_change_header
    if (b)
#endif
    inq[0] = 1;

    check_queue();
    VP_ASSERT(env_as_was() && q_as_was(), "all else stays");
#elif defined(CASE_delete_header)
    VP_ASSERT(h_.n == 1 && n_told == 0 && h_.what == H_DELETE && h_.index == index && same(h_.name, a), "the header of this name and index is deleted, once");
    check_queue();
    VP_ASSERT(env_as_was() && q_as_was(), "all else stays");
#elif defined(CASE_change_from)
    VP_ASSERT(h_.n == 0 && n_told == 0 && P->change_from && P->change_from != a && same(P->change_from, a), "the sender is kept for the end");
    VP_ASSERT(same(P->change_from_parameters, b) && (!b || P->change_from_parameters != b), "with its parameters");
    VP_ASSERT(q_as_was(), "all else stays");
    check_queue();
#elif defined(CASE_quarantine)
    VP_ASSERT(h_.n == 0 && n_told == 0 && P->quarantine_reason && P->quarantine_reason != a && same(P->quarantine_reason, a), "the reason is kept for the end");
    VP_ASSERT(env_as_was(), "all else stays");
    check_queue();
#elif defined(CASE_add_recipient) || defined(CASE_delete_recipient)
    VP_ASSERT(h_.n == 0 && n_told == 1, "the MTA is told once");
#ifdef CASE_add_recipient
    VP_ASSERT(told[0].id == EV_ADD_RECIPIENT && same(told[0].p0, a) && same(told[0].p1, b), "the recipient is added, with its parameters");
#else
    VP_ASSERT(told[0].id == EV_DELETE_RECIPIENT && same(told[0].p0, a), "the recipient is deleted");
#endif
    VP_ASSERT(env_as_was() && q_as_was(), "all else stays");
    check_queue();
#else
    VP_ASSERT(h_.n == 0 && n_told == 0 && env_as_was() && q_as_was(), "nothing changes");
    check_queue();
#endif
    VP_REACH("taken");
    return 0;
}
#else
/* the modifications are told to the MTA, each once */
int vp_main(void)
{
    int n = 0;
    session();
#ifdef VP_N
    vp_assume(!P->replaced_body);
    P->original_headers = NULL;
#else
    if (vp_bool("no headers")) P->original_headers = NULL;
#endif
    emit_signals_on_end_of_message(C);
#ifndef VP_N
    VP_ASSERT(body_told == P->replaced_body, "a replaced body is sent, once");
    VP_ASSERT(headers_told == !!P->original_headers, "the changes of the headers are sent, once");
#endif
    if (old_from) {
        VP_ASSERT(n_told > n && told[n].id == EV_CHANGE_FROM && same(told[n].p0, old_from) && same(told[n].p1, old_par),
                  "the sender is changed, with its parameters");
        n++;
        VP_REACH("sender");
    }
    if (old_q) {
        VP_ASSERT(n_told > n && told[n].id == EV_QUARANTINE && same(told[n].p0, old_q), "the message is quarantined, with its reason");
        n++;
        VP_REACH("quarantine");
    }
    VP_ASSERT(n_told == n && n_reply == 0 && n_progress == 0 && n_error == 0, "nothing else is told");
    VP_REACH("told");
    return 0;
}
#endif
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
