/* TUS: milter/core/milter-protocol.c */
/* Contracts of the functions that feed the message to one milter after the
 * other (milter-manager-children.c).
 *
 * The milter being fed is K[0]; its position is the command it was given last,
 * the number of the header and the offset in the body. Every step hands it the
 * next part of the message as it is kept, or tells the MTA to go on when there
 * is none, or turns to the next milter.
 *
 *  A  any number of headers, any body, any number of waiting milters; the kept
 *     body is a witness byte and a length, in memory or in the file
 *  N  a few headers and bytes, the real GLib and a real file */
#include <glib.h>
#ifdef VP_A
static GList vp_rest;                   /* the rest of the list of waiting milters */
#define VP_LIST_MORE(l) ((l) && (l) != &vp_rest)
#define VP_OWN_GSTRING 1
#define VP_OWN_MEMDUP 1
#endif
#define VP_EXPECT_SENDABLE 1
static int sendable(int i);
#define VP_ON_DUMMY 1
static void dummy_continue(int i);
#include "vp_children.h"

/* ---------------------------------------------------------- the headers */
static int hdrs_;
#define H ((MilterHeaders *)&hdrs_)
static guint h_n, h_got; static MilterHeader hdr_;
static const char *app_name, *app_value; static guint app_at;
static char *h_name, *h_value;          /* any other header */
MilterHeaders *milter_headers_new(void) { VP_ASSERT(!P->headers || h_n == 0 || P->headers == H, "the headers are kept"); h_n = 0; return H; }
static int n_original;
MilterHeaders *milter_headers_copy(MilterHeaders *h) { VP_ASSERT(h == H, "the headers of this message"); n_original++; return H; }
const GList *milter_headers_get_list(MilterHeaders *h) { VP_ASSERT(0, "not used here"); return NULL; }
guint milter_headers_length(MilterHeaders *h) { VP_ASSERT(h == H, "the headers of this message"); return h_n; }
MilterHeader *milter_headers_get_nth_header(MilterHeaders *h, guint i)
{
    VP_ASSERT(h == H, "the headers of this message");
    if (i < 1 || i > h_n) return NULL;
    h_got = i;
    if (app_at && i == app_at) { hdr_.name = (gchar *)app_name; hdr_.value = (gchar *)app_value; }
    else { hdr_.name = h_name; hdr_.value = h_value; }
    return &hdr_;
}
gboolean milter_headers_append_header(MilterHeaders *h, const gchar *n, const gchar *v)
{
    VP_ASSERT(h == H && !app_at, "a header is kept once, behind the others");
    h_n++; app_name = n; app_value = v; app_at = h_n;
    return TRUE;
}
gboolean milter_headers_remove(MilterHeaders *h, MilterHeader *x) { VP_ASSERT(0, "not used here"); return FALSE; }

static int opt_; static guint version_, step_;
#define OPT ((MilterOption *)&opt_)
MilterStepFlags milter_option_get_step(MilterOption *o) { VP_ASSERT(o == OPT, "the options of the session"); return step_; }
guint32 milter_option_get_version(MilterOption *o) { VP_ASSERT(o == OPT, "the options of the session"); return version_; }
static guint chunk_size_;
guint milter_manager_configuration_get_chunk_size(MilterManagerConfiguration *c) { return chunk_size_; }

/* ------------------------------------------------------------- the body */
static gsize body_len;                  /* of the body kept */
static int body_w = -1;                 /* its byte at vp_W, or -1 */
static int in_file;
#ifdef VP_A
static struct { GString g; int wb; } B_;
static struct { int open; gsize len, pos; int wb; } F_;
static int f_chan;
static struct { gconstpointer src; gpointer dst; gsize n; } dup_;
gpointer (g_memdup)(gconstpointer p, guint n)
{
    dup_.src = p; dup_.n = n; dup_.dst = n && p ? malloc(n) : NULL;
    if (n && p) VP_ASSERT(__CPROVER_r_ok(p, n), "bytes copied are there");
    return dup_.dst;
}
static int is_dup(gconstpointer d, gconstpointer s, gsize n) { return n == 0 || (d == dup_.dst && s == dup_.src && n == dup_.n); }
/* the bytes known: the body as it was, and the chunk that came */
static const gchar *known_[2]; static gsize known_n[2], known_at[2]; static int known_w[2];
static int byte_of(const gchar *v, gsize n, gsize at)
{
    int i;
    if (v == B_.g.str && v) { VP_ASSERT(at == vp_W && n <= B_.g.len, "the bytes kept are the body's"); return B_.wb; }
    for (i = 0; i < 2; i++) if (v == known_[i]) { VP_ASSERT(at == known_at[i] && n <= known_n[i], "the bytes kept are the ones given"); return known_w[i]; }
    VP_ASSERT(0, "the bytes kept are the ones given");
    return 256;
}
GString *g_string_append_len(GString *g, const gchar *v, gssize n)
{
    VP_ASSERT(g == &B_.g && n >= 0, "model: the body is the only string");
    if (vp_W >= g->len && vp_W - g->len < (gsize)n) B_.wb = byte_of(v, n, vp_W - g->len);
    g->len += n;
    g->str = malloc(g->len + 1);
    vp_assume(g->str != NULL);
    return g;
}
GString *g_string_new_len(const gchar *v, gssize n) { B_.g.len = 0; B_.wb = -1; return g_string_append_len(&B_.g, v, n); }
GString *g_string_new(const gchar *v) { VP_ASSERT(0, "model: no other string"); return NULL; }
gchar *g_string_free(GString *g, gboolean all) { VP_ASSERT(g == &B_.g && all, "the body is dropped as a whole"); return NULL; }
gint g_file_open_tmp(const gchar *t, gchar **name, GError **e)
{ VP_ASSERT(!F_.open, "one body file"); F_.open = 1; F_.len = F_.pos = 0; F_.wb = -1; *name = vp_cstr("file"); return 7; }
GIOChannel *g_io_channel_unix_new(int fd) { VP_ASSERT(fd == 7 && F_.open, "the body file"); return (GIOChannel *)&f_chan; }
void g_io_channel_set_close_on_unref(GIOChannel *c, gboolean b) { }
void g_io_channel_unref(GIOChannel *c) { VP_ASSERT((gpointer)c == (gpointer)&f_chan && F_.open, "the body file"); F_.open = 0; }
int g_unlink(const char *n) { VP_ASSERT(!F_.open, "a body file is removed when it is closed"); return 0; }
GIOStatus g_io_channel_set_encoding(GIOChannel *c, const gchar *e, GError **err) { VP_ASSERT(!e, "bytes are kept as they are"); return G_IO_STATUS_NORMAL; }
#define FILE_OK(c) VP_ASSERT((gpointer)(c) == (gpointer)&f_chan && F_.open, "the body file")
GIOStatus g_io_channel_seek_position(GIOChannel *c, gint64 o, GSeekType t, GError **e)
{
    FILE_OK(c);
    VP_ASSERT(o == 0 && t != G_SEEK_CUR, "model: the file is wound to its start or end");
    F_.pos = t == G_SEEK_SET ? 0 : F_.len;
    return G_IO_STATUS_NORMAL;
}
GIOStatus g_io_channel_write_chars(GIOChannel *c, const gchar *v, gssize n, gsize *w, GError **e)
{
    FILE_OK(c);
    VP_ASSERT(n >= 0, "model: the size is given");
    if (vp_W >= F_.pos && vp_W - F_.pos < (gsize)n) F_.wb = byte_of(v, n, vp_W - F_.pos);
    F_.pos += n; if (F_.pos > F_.len) F_.len = F_.pos;
    if (w) *w = n;
    return G_IO_STATUS_NORMAL;
}
static gsize rd_pos; static const char *rd_buf; static gsize rd_n;
GIOStatus g_io_channel_read_chars(GIOChannel *c, gchar *buf, gsize n, gsize *r, GError **e)
{
    FILE_OK(c);
    VP_ASSERT(__CPROVER_w_ok(buf, n), "the buffer takes what is read");
    if (F_.pos >= F_.len) { *r = 0; return G_IO_STATUS_EOF; }
    *r = nondet_vp_u64();
    vp_assume(*r >= 1 && *r <= n && *r <= F_.len - F_.pos);
    rd_pos = F_.pos; rd_buf = buf; rd_n = *r;
    F_.pos += *r;
    return G_IO_STATUS_NORMAL;
}
#define STR_W(g) (vp_W < (g)->len ? B_.wb : -1)
#define FILE_W() (vp_W < F_.len ? F_.wb : -1)
#else
static int is_dup(gconstpointer d, gconstpointer s, gsize n) { return n == 0 || (d != s && memcmp(d, s, n) == 0); }
#define STR_W(g) (vp_W < (g)->len ? (int)(guint8)(g)->str[vp_W] : -1)
static char file_[64]; static gsize file_n;
static void file_read(void)
{
    gsize n; FILE *f; fflush(NULL); g_io_channel_flush(P->body_file, NULL);
    f = fopen(P->body_file_name, "rb"); file_n = fread(file_, 1, sizeof file_, f); fclose(f); (void)n;
}
#endif

/* n bytes, of which the one at index at matters */
static char *bytes(const char *t, gsize n, gsize at, int *w, int k)
{
#ifdef VP_A
    char *p = malloc(n);
    vp_assume(p != NULL);
    known_[k] = p; known_n[k] = n; known_at[k] = at; known_w[k] = *w = at < n ? vp_u8(t) : -1;
    return p;
#else
    char *p = vp_block(t, n);
    *w = at < n ? (int)(guint8)p[at] : -1;
    return p;
#endif
}
static int live_w = -1;

/* ------------------------------------------- what the milter must get next */
enum { W_HEADER, W_EOH, W_BODY, W_EOM, W_GO_ON, W_LAST, W_LIVE_BODY };
static int want, want_kid; static guint want_index; static gsize want_off;
static int inq[4];                      /* which commands the message has */
static char *eom_chunk; static gsize eom_size;
static int entered;                     /* a command of the MTA is being handled */
static int n_answered, n_final, synced;
static char *live_chunk; static gsize live_size;
static MilterManagerChildrenPrivate snap, left;
static int space_session;

static void expect_from(int c, int k)
{
    want_kid = k;
    for (; c < 4; c++) {
        if (!inq[c]) continue;
        if (c == 0 && h_n >= 1) { want = W_HEADER; want_index = 1; return; }
        if (c == 1) { want = W_EOH; return; }
        if (c == 2 && !K[k].skip && body_len > 0) { want = W_BODY; want_off = 0; return; }
        if (c == 3) { want = W_EOM; return; }
    }
    want = W_GO_ON;
}
static int sendable(int i) { return i == want_kid; }
/* the session when the milter got the command (it may answer before the
 * function returns), and what was kept by then */
static gsize kept_len, file_pos; static int kept_w, kept_in, got_kid, dummied; static guint got_header;
static const char *got_name, *got_value, *got_str; static gconstpointer waiting_first;
static void keep(void)
{
    kept_in = !!P->body + 2 * !!P->body_file;
    if (P->body) { kept_len = P->body->len; kept_w = STR_W(P->body); got_str = P->body->str; }
    else if (P->body_file) {
#ifdef VP_A
        kept_len = F_.len; kept_w = FILE_W(); file_pos = F_.pos;
#else
        file_read(); kept_len = file_n; kept_w = vp_W < file_n ? (int)(guint8)file_[vp_W] : -1;
#endif
    }
}
static void hand_over(int i)
{
    VP_ASSERT(n_answered == 0 && n_reply == 0, "a milter gets one part at a time, and the MTA is not told to go on meanwhile");
    n_answered++;
    got_kid = i; got_header = h_got; got_name = hdr_.name; got_value = hdr_.value;
    waiting_first = P->command_waiting_child_queue ? P->command_waiting_child_queue->data : NULL;
    keep();
    snap = *P;
#ifdef VP_N
    if (K[i].sent == MILTER_COMMAND_BODY && K[i].size) K[i].arg = memcpy(g_malloc(K[i].size), K[i].arg, K[i].size);
#endif
    synced = vp_bool("sync");
#ifdef VP_A
    if (synced) {
        P->processing_header_index = nondet_vp_u32(); P->sending_body = nondet_vp_u32(); P->sent_body_offset = nondet_vp_u32();
        P->processing_state = nondet_vp_u32(); P->state = nondet_vp_u32(); P->replaced_body_for_each_child = nondet_vp_u32();
        P->body = NULL; P->body_file = NULL; P->command_queue = NULL; P->command_waiting_child_queue = NULL;
        P->end_of_message_chunk = NULL; P->end_of_message_size = nondet_vp_u64();
    }
#endif
    left = *P;
}
static void answer_now(Kid *k) { hand_over(k - K); }
/* it does not want (more of) the body: counted as continue */
static void dummy_continue(int i) { dummied = 1; hand_over(i); }
static void check_body_kept(gsize len, int w)
{
    VP_ASSERT(kept_in == 1 || kept_in == 2, "the body is kept in one place");
    VP_ASSERT(kept_len == len, "every byte of the body is kept");
    VP_ASSERT(kept_w == w, "the bytes of the body are kept as they are");
}
static void check_handed(void)
{
    Kid one, *k = &one;
    const char *v = got_value;
    if (got_kid == 0) one = K[0]; else one = K[1];
    VP_ASSERT(got_kid == want_kid && waiting_first == (want_kid ? (gconstpointer)&K[1] : (gconstpointer)&K[0]), "the milters take their turns");
    if (entered) VP_ASSERT((int)snap.state == entered, "the command being processed is known");
    VP_ASSERT(!dummied || (want == W_LIVE_BODY && k->skip), "only a milter that skips the body is passed over");
    switch (want) {
    case W_HEADER:
        VP_ASSERT(k->sent == MILTER_COMMAND_HEADER, "the next header is sent");
        VP_ASSERT(got_header == want_index && snap.processing_header_index == (gint)want_index, "the headers are sent in order, each once");
        VP_ASSERT(snap.processing_state == MILTER_SERVER_CONTEXT_STATE_HEADER, "the position is known");
        if (space_session && !k->own_space && v[0] == ' ') v++;
        VP_ASSERT(k->arg == got_name && k->arg2 == v, "the header is sent as it is kept, with the leading space only if both know of it");
        break;
    case W_EOH:
        VP_ASSERT(k->sent == MILTER_COMMAND_END_OF_HEADER, "the end of the headers follows them");
        VP_ASSERT(snap.processing_state == MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER, "the position is known");
        break;
    case W_BODY:
        VP_ASSERT(k->sent == MILTER_COMMAND_BODY, "the next part of the body is sent");
        VP_ASSERT(k->size >= 1 && k->size <= chunk_size_ && k->size <= body_len - want_off, "the body is sent in parts of the configured size");
        VP_ASSERT(snap.processing_state == MILTER_SERVER_CONTEXT_STATE_BODY && snap.sending_body, "the position is known");
        check_body_kept(body_len, body_w);
        if (!in_file) {
#ifdef VP_A
            VP_ASSERT(k->arg2 == NULL && k->arg == got_str + want_off, "the bytes sent are the ones at the position");
#else
            VP_ASSERT(!memcmp(k->arg, got_str + want_off, k->size), "the bytes sent are the ones at the position");
#endif
            VP_ASSERT(snap.sent_body_offset == want_off + k->size, "every byte is sent once");
        } else {
#ifdef VP_A
            VP_ASSERT(k->arg == rd_buf && rd_pos == want_off && k->size == rd_n, "the bytes sent are the ones at the position");
            VP_ASSERT(file_pos == want_off + k->size, "every byte is sent once");
#else
            VP_ASSERT(memcmp(k->arg, file_ + want_off, k->size) == 0, "the bytes sent are the ones at the position");
#endif
        }
        break;
    case W_LIVE_BODY:
        if (dummied) VP_ASSERT(k->skip && k->state == MILTER_SERVER_CONTEXT_STATE_BODY, "only a milter that skips the body is passed over");
        else
#ifdef VP_A
            VP_ASSERT(k->sent == MILTER_COMMAND_BODY && k->arg == live_chunk && k->size == live_size, "the chunk is sent as it came");
#else
            VP_ASSERT(k->sent == MILTER_COMMAND_BODY && k->size == live_size && !memcmp(k->arg, live_chunk, live_size), "the chunk is sent as it came");
#endif
        VP_ASSERT(snap.processing_state == MILTER_SERVER_CONTEXT_STATE_BODY && !snap.sending_body, "the position is known");
        check_body_kept(body_len + live_size, body_w >= 0 ? body_w : live_w);
        break;
    case W_EOM:
        VP_ASSERT(k->sent == MILTER_COMMAND_END_OF_MESSAGE, "the end of the message is last");
        VP_ASSERT(snap.processing_state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE, "the position is known");
        VP_ASSERT(k->arg == snap.end_of_message_chunk && k->size == snap.end_of_message_size, "the last chunk is sent as it is kept");
        VP_ASSERT(k->size == eom_size && (entered ? is_dup(k->arg, eom_chunk, eom_size) : k->arg == eom_chunk), "the last chunk is sent as it came");
        VP_ASSERT(snap.processing_header_index == 0 && !snap.replaced_body_for_each_child, "the next milter gets the message from its start");
        break;
    default:
        VP_ASSERT(0, "nothing is left to send");
    }
}

/* ---- contracts of functions discharged elsewhere ---- */
void gh_final(MilterManagerChildren *c, MilterServerContextState s)
{
    VP_ASSERT(c == C && s == P->state && !P->command_waiting_child_queue, "the last milter's answer leads to the reply to the MTA's command");
    n_final++;
}
static int n_check;
gboolean gh_handling(MilterManagerChildren *c) { VP_ASSERT(c == C && !n_check, "somebody handles the message"); n_check++; return vp_bool("handling"); }
static int waiting_none, init_calls;
void gh_init_waiting(MilterManagerChildren *c, MilterCommand cmd)
{
    static const int at[] = { MILTER_COMMAND_HEADER, MILTER_COMMAND_END_OF_HEADER, MILTER_COMMAND_BODY, MILTER_COMMAND_END_OF_MESSAGE };
    int i;
    VP_ASSERT(c == C && init_calls == 0, "the milters to ask are collected once");
    init_calls++;
    for (i = 0; i < 4; i++) if (at[i] == (int)cmd) inq[i] = 1;
    if (!g_list_find(P->command_queue, GINT_TO_POINTER(cmd)))
        P->command_queue = g_list_append(P->command_queue, GINT_TO_POINTER(cmd));
    if (P->command_waiting_child_queue || waiting_none) return;
    P->command_waiting_child_queue = g_list_append(NULL, &K[0]);
    g_list_append(P->command_waiting_child_queue, &K[1]);
}
static int data_calls, data_ok, kept_cmd;
static const char *kept_a, *kept_b; static gsize kept_n;
gboolean gh_data(MilterManagerChildren *c)
{
    PendingMessageRequest *r = P->pending_message_request;
    VP_ASSERT(c == C && !data_calls && r && (int)r->command == kept_cmd, "the command is kept until DATA is answered");
    data_calls++;
    switch (kept_cmd) {
    case MILTER_COMMAND_HEADER:
        VP_ASSERT(r->arguments.header.name != kept_a && vp_streq(r->arguments.header.name, kept_a), "the header is kept as it is");
        VP_ASSERT(r->arguments.header.value != kept_b && vp_streq(r->arguments.header.value, kept_b), "the header is kept as it is");
        break;
    case MILTER_COMMAND_BODY: VP_ASSERT(r->arguments.body.size == kept_n && is_dup(r->arguments.body.chunk, kept_a, kept_n), "the chunk is kept as it is"); break;
    case MILTER_COMMAND_END_OF_MESSAGE: VP_ASSERT(r->arguments.end_of_message.size == kept_n && is_dup(r->arguments.end_of_message.chunk, kept_a, kept_n), "the chunk is kept as it is"); break;
    }
    data_ok = vp_bool("data");
    if (data_ok && vp_bool("done")) P->pending_message_request = NULL;
    return data_ok;
}
#ifndef VP_BODY_HARNESS
static void vp_modification(const Ev *e) { VP_ASSERT(0, "no modification is sent"); }
#endif
MilterMacrosRequests *milter_macros_requests_new(void) { return NULL; }

/* ------------------------------------------------------------- the session */
static const MilterServerContextState states[4] = { MILTER_SERVER_CONTEXT_STATE_HEADER, MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER,
    MILTER_SERVER_CONTEXT_STATE_BODY, MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE };
static const MilterCommand cmds[4] = { MILTER_COMMAND_HEADER, MILTER_COMMAND_END_OF_HEADER, MILTER_COMMAND_BODY, MILTER_COMMAND_END_OF_MESSAGE };
#ifdef VP_N
#define LENMAX 12
#else
#define LENMAX (VP_AMAX - 1)
#endif
static int n_waiting;
#ifdef VP_A
static GList wq0, wq1, wq2, cq0, cq1, cq2, cq3;
#define CQ_(i) ((i) == 0 ? &cq0 : (i) == 1 ? &cq1 : (i) == 2 ? &cq2 : &cq3)
#endif
static void session(int last, int waiting)
{
    int i;
    C = (MilterManagerChildren *)&c_obj;
    P = &priv_;
    vp_set_private(C, MILTER_TYPE_MANAGER_CHILDREN, P);
    milter_manager_children_init(C);
    vp_witness();
    for (i = 0; i < NK; i++) { any_kid(i); K[i].negotiated = TRUE; K[i].quitted = FALSE; K[i].pm = TRUE; K[i].accepted = TRUE; K[i].need_reply = TRUE; }
    P->option = OPT; version_ = 2 + vp_below("version", 5);
    space_session = vp_bool("space"); step_ = space_session ? MILTER_STEP_HEADER_VALUE_WITH_LEADING_SPACE : 0;
    chunk_size_ = 1 + vp_below("chunk size", MILTER_CHUNK_SIZE);
#ifdef VP_N
    chunk_size_ = 1 + chunk_size_ % 5;
#endif
    h_name = vp_cstr("name"); h_value = vp_cstr("value");
    P->headers = H; h_n = vp_below("headers", 1u << 30);
    n_waiting = waiting ? vp_below("waiting", 3) : 0;
#ifdef VP_A
    wq0.data = &K[0]; wq0.next = n_waiting > 0 ? &wq1 : NULL;
    wq1.data = &K[1]; wq1.prev = &wq0; wq1.next = n_waiting > 1 ? &wq2 : NULL;
    wq2.data = &K[2]; wq2.prev = &wq1; wq2.next = vp_bool("more") ? &vp_rest : NULL;
    vp_rest.prev = &wq2;
    P->command_waiting_child_queue = waiting ? &wq0 : NULL;
#else
    for (i = 0; waiting && i <= n_waiting; i++) P->command_waiting_child_queue = g_list_append(P->command_waiting_child_queue, &K[i]);
#endif
    /* what the MTA has sent; a milter may have added headers or a body */
    for (i = 0; i < 4; i++) {
        inq[i] = i < last ? vp_bool("cmd") : i == last;
#ifndef VP_A
        if (inq[i]) P->command_queue = g_list_append(P->command_queue, GINT_TO_POINTER(cmds[i]));
#endif
    }
#ifdef VP_A
    for (i = 3; i >= 0; i--) {
        int j; GList *q = CQ_(i);
        q->data = GINT_TO_POINTER(cmds[i]); q->next = NULL; q->prev = NULL;
        for (j = 3; j > i; j--) if (inq[j]) q->next = CQ_(j);
        for (j = 0; j < i; j++) if (inq[j]) q->prev = CQ_(j);
        if (inq[i]) P->command_queue = q;
    }
#endif
    if (!inq[0]) h_n = 0;
    else if (last < 3) vp_assume(h_n > 0);
    if (inq[2]) {
        char *b;
        body_len = vp_below("body", LENMAX + 1);
        b = bytes("body", body_len, vp_W, &body_w, 0);
        in_file = vp_bool("file");
        if (in_file) {
#ifdef VP_A
            P->body_file = (GIOChannel *)&f_chan; F_.open = 1; F_.len = body_len; F_.wb = body_w; F_.pos = nondet_vp_u64();
            vp_assume(F_.pos <= F_.len);
            P->body_file_name = (gchar *)"file";
#else
            VP_ASSERT(write_body_to_file(C, b, body_len), "the file is written");
#endif
        } else
            P->body = g_string_new_len(b, body_len);
    }
    if (last == 3) {
        eom_size = vp_below("end", LENMAX + 1); eom_chunk = bytes("end", eom_size, 0, &live_w, 1);
        P->end_of_message_chunk = eom_chunk; P->end_of_message_size = eom_size;
        P->original_headers = H;
    }
    if (last >= 0) P->state = states[last];
    P->replaced_body_for_each_child = vp_bool("replaced"); P->replaced_body = vp_bool("replaced");
    P->emitted_reply_for_message_oriented_command = FALSE;
    n_check = 0;
}
static MilterStatus old_;
/* K[0] has been given the command number at */
static void position(int at)
{
    vp_assume(inq[at]);
    K[0].state = P->processing_state = states[at];
    P->processing_header_index = 0; P->sending_body = vp_bool("sending");
    P->sent_body_offset = vp_below("old offset", LENMAX + 1);   /* an earlier milter may have skipped the rest */
    if (at < 3 && inq[0]) { P->processing_header_index = vp_below("index", 1u << 30); vp_assume(P->processing_header_index <= (gint)h_n + 1); }
    if (at == 0) vp_assume(P->processing_header_index >= 1 && P->processing_header_index <= (gint)h_n);
    old_ = any_status("old");
    vp_assume(rank_of(old_) < 4);
    g_hash_table_insert(P->reply_statuses, GINT_TO_POINTER(states[at]), GINT_TO_POINTER(old_));
    if (at == 2) {
        want_off = vp_below("offset", LENMAX + 1); vp_assume(want_off <= body_len);
        if (!in_file) P->sent_body_offset = want_off;
        else {
#ifdef VP_A
            F_.pos = want_off;
#else
            char buf[64]; gsize n;
            g_io_channel_seek_position(P->body_file, 0, G_SEEK_SET, NULL);
            if (want_off) g_io_channel_read_chars(P->body_file, buf, want_off, &n, NULL);
#endif
        }
    }
}
static void check_step(void)
{
    int sent_one = want != W_GO_ON && want != W_LAST;
    VP_ASSERT(n_answered == sent_one, "the milter gets what comes next");
    VP_ASSERT(n_final == (want == W_LAST), "the reply is given when no milter is left");
    VP_ASSERT(n_reply == (want == W_GO_ON), "the MTA is told to go on when the milter has everything");
    if (want == W_GO_ON) VP_ASSERT(reply_id == MILTER_STATUS_CONTINUE, "the MTA is told to go on");
    if (n_answered) {
        check_handed();
        VP_ASSERT(P->processing_header_index == left.processing_header_index && P->sending_body == left.sending_body &&
                  P->sent_body_offset == left.sent_body_offset && P->processing_state == left.processing_state && P->state == left.state &&
                  P->replaced_body_for_each_child == left.replaced_body_for_each_child && P->body == left.body && P->body_file == left.body_file &&
                  P->command_queue == left.command_queue && P->command_waiting_child_queue == left.command_waiting_child_queue &&
                  P->end_of_message_chunk == left.end_of_message_chunk && P->end_of_message_size == left.end_of_message_size,
                  "nothing changes behind a milter that has answered already");
    } else if (want == W_GO_ON) {
        /* the milter is fed: the MTA's next part goes to it directly */
        VP_ASSERT(P->command_waiting_child_queue && P->command_waiting_child_queue->data == (gpointer)&K[want_kid], "its turn lasts");
        if (P->state == MILTER_SERVER_CONTEXT_STATE_HEADER) VP_ASSERT(P->processing_header_index == (gint)h_n, "all headers so far are sent");
    }
    VP_ASSERT(n_error == 0, "no error");
}
static void statuses(int s, MilterStatus st) { if (!synced) VP_ASSERT(status_for(s) == worse(old_, st), "the answer is kept"); }

#if defined(CASE_after_header) || defined(CASE_after_end_of_header) || defined(CASE_after_body) || defined(CASE_after_end_of_message)
static void after(int at)
{
    int last = vp_below("last", 4);
    vp_assume(last >= at);
    session(last, 1);
    position(at);
    want_kid = 0;
    if (at == 0 && P->processing_header_index < (gint)h_n) { want = W_HEADER; want_index = P->processing_header_index + 1; }
    else if (at == 2 && P->sending_body && !K[0].skip && want_off < body_len) want = W_BODY;
    else if (at == 3) {
#ifdef VP_N
        vp_assume(n_waiting > 0);       /* the final reply runs for real here */
#endif
        if (n_waiting == 0) want = W_LAST;
        else expect_from(0, 1);
    } else expect_from(at + 1, 0);
    cb_continue(CTX(0), C);
    check_step();
    statuses(states[at], MILTER_STATUS_CONTINUE);
#ifdef CASE_after_header
    if (want == W_HEADER) VP_REACH("header");
#endif
#if !defined(CASE_after_body) && !defined(CASE_after_end_of_header)
    if (want == W_EOH && want_kid == (at == 3)) VP_REACH("end of header");
#endif
    if (want == W_BODY && in_file) VP_REACH("body from the file");
    if (want == W_BODY && !in_file) VP_REACH("body from memory");
    if (want == W_EOM) VP_REACH("end of message");
#ifndef CASE_after_end_of_message
    if (want == W_GO_ON) VP_REACH("go on");
#else
    if (want == W_LAST) VP_REACH("last milter");
    if (want == W_HEADER) VP_REACH("next milter from its start");
#endif
}
#endif
#ifdef CASE_skip
static void skip(void)
{
    int last = 2 + vp_below("last", 2);
    session(last, 1);
    position(2);
    expect_from(3, 0);
    cb_skip(CTX(0), C);
    check_step();
    statuses(states[2], MILTER_STATUS_SKIP);
    if (want == W_EOM) VP_REACH("end of message"); else VP_REACH("go on");
}
#endif

#ifdef CASE_command
/* a command of the MTA reaches the milter whose turn it is */
static void command(void)
{
    int at = AT, last = (int)vp_below("last", 5) - 1, live = vp_bool("live"), emulate, ok;
    gsize n = 0; char *a = NULL, *b = NULL; guint n0;
    vp_assume(at == 0 ? last <= 0 : at == 2 ? last <= 2 : last < at);
    vp_assume(live ? last >= 0 : last < 0);
    session(last, live);
    n0 = h_n;
    waiting_none = !live && vp_bool("none");
    if (!live) {
        if (vp_bool("no headers")) P->headers = NULL;
        P->state = P->processing_state = vp_bool("rcpt") ? MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT : MILTER_SERVER_CONTEXT_STATE_DATA;
        P->processing_header_index = 0;
    } else {
        K[0].state = P->processing_state = P->state;
        P->processing_header_index = h_n;
        if (last > 0) { P->processing_header_index = vp_below("index", 1u << 30); vp_assume(P->processing_header_index <= (gint)h_n + 1); }
        P->sending_body = vp_bool("sending");
    }
    emulate = P->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT && version_ >= 4;
    if (vp_bool("old request")) P->pending_message_request = pending_end_of_header_request_new();
    kept_cmd = cmds[at]; entered = states[at];
    want_kid = 0;
#ifdef VP_N
    for (ok = 0; ok < NK; ok++) P->milters = g_list_append(P->milters, &K[ok]);
    vp_assume(!emulate && !waiting_none);
#endif
#if AT == 0
    kept_a = a = vp_cstr("name"); kept_b = b = vp_cstr("value");
    want = W_HEADER; want_index = h_n + 1;
    ok = milter_manager_children_header(C, a, b);
#elif AT == 1
    want = W_EOH;
    ok = milter_manager_children_end_of_header(C);
#else
    kept_n = n = vp_below("chunk", LENMAX + 1); kept_a = a = bytes("chunk", n, vp_W - body_len, &live_w, 1);
#if AT == 2
    want = W_LIVE_BODY; live_chunk = a; live_size = n;
    ok = milter_manager_children_body(C, a, n);
#else
    want = W_EOM; eom_chunk = a; eom_size = n;
    ok = milter_manager_children_end_of_message(C, a, n);
#endif
#endif
#ifndef VP_N
    if (!data_calls && init_calls == 0) {
        VP_ASSERT(!ok && n_answered == 0 && n_reply == 0, "without milters nothing is sent");
        VP_REACH("no milter");
        return;
    }
    if (emulate) {
        VP_ASSERT(data_calls == 1 && n_answered == 0 && n_reply == 0 && init_calls == 0, "DATA comes first");
        VP_ASSERT(ok == data_ok && (ok || !P->pending_message_request), "a command is kept only while DATA is being answered");
        VP_ASSERT(h_n == n0 && !P->body && !P->body_file && !P->end_of_message_chunk, "the command takes effect after DATA");
        VP_REACH("kept");
        return;
    }
    VP_ASSERT(data_calls == 0, "DATA is sent once");
    if (waiting_none) {
        VP_ASSERT(!ok && n_answered == 0 && n_reply == 0, "no milter wants the message");
        VP_REACH("nobody");
        return;
    }
#endif
    VP_ASSERT(ok, "the command is on its way");
    check_step();
#if AT == 0
    VP_ASSERT(h_n == n0 + 1 && app_name == a && app_value == b && app_at == h_n, "the header is kept behind the others");
#else
    VP_ASSERT(h_n == n0, "the headers are kept");
#endif
#if AT == 3
    VP_ASSERT(P->headers == H && P->original_headers == H && n_original == 1, "the headers as they came are kept for comparison");
    if (inq[2]) check_body_kept(body_len, body_w);
#endif
    VP_REACH("sent");
}
#endif

#ifndef VP_BODY_HARNESS
int vp_main(void)
{
#if defined(CASE_after_header)
    after(0);
#elif defined(CASE_after_end_of_header)
    after(1);
#elif defined(CASE_after_body)
    after(2);
#elif defined(CASE_after_end_of_message)
    after(3);
#elif defined(CASE_skip)
    skip();
#elif defined(CASE_command)
    command();
#endif
    return 0;
}

#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
#endif
