/* TUS: milter/core/milter-reply-decoder.c milter/core/milter-reply-signals.c milter/core/milter-utils.c */
/* CUT: milter/core/milter-reply-decoder.c find_space_character 0 */
/* CUT: milter/core/milter-reply-decoder.c decode_macros_requests 0 */
/* Contracts of the milter reply decoder (milter -> manager): for every packet
 * either exactly one signal with exactly the packet's content, or rejection
 * without any signal. */
/* CUT: milter/core/milter-reply-decoder.c join_reply_lines 0 */
#if defined(VP_A)
#define VP_OWN_SPACE 1
#ifdef LINES
#define VP_OWN_GSTRING 1
#define VP_OWN_STRNCMP 1
#endif
#endif
#include "vp_dec.h"
#include "milter-reply-decoder.h"
#include "milter-reply-signals.h"

static int accept_, maybe_;     /* the specification's verdict; maybe_: either is right */
static gsize o2, o3;            /* offsets of the text arguments */
static gssize nul;
static int req_object, req_made, n_sets;

/* what the protocol says about macro stages (libmilter's SMFIM_*) */
static int command_of(guint32 stage) { return stage < 7 ? "CHMRTEN"[stage] : 0; }

/* ghost macro requests */
MilterMacrosRequests *milter_macros_requests_new(void)
{ VP_ASSERT(!req_made, "one set of macro requests"); req_made = 1; return (gpointer)&req_object; }
static void set_symbols(int command, const gchar **strings);
void milter_macros_requests_set_symbols_string_array(MilterMacrosRequests *r, MilterCommand c, const gchar **strings)
{
    VP_ASSERT(req_made && r == (gpointer)&req_object, "requests are collected in the reported object");
    n_sets++;
    set_symbols(c, strings);
}

#ifdef VP_A
static gboolean in_packet(const char *p) { return __CPROVER_same_object(p, P); }
/* ---- splitting a text at spaces is named by the text it splits ---- */
static gchar *split_token[2]; static gsize split_off; static int n_splits;
gchar **g_strsplit(const gchar *s, const gchar *d, gint max)
{
    VP_ASSERT(in_packet(s) && d[0] == ' ' && d[1] == '\0' && max < 1, "the symbol list is split at every space");
    split_off = s - P; n_splits++;
    return split_token;
}
void g_strfreev(gchar **v) { }
static int set_command;
static void set_symbols(int command, const gchar **strings)
{
    VP_ASSERT((gchar **)strings == split_token, "the symbols come from the packet");
    set_command = command;
}
/* ---- the first space of the text ---- */
static gsize sp;                /* first space in [o2, nul), or nul */
static void space_at(gsize off)
{ if (off < (gsize)nul) vp_assume((P[off] == ' ') == (off == sp) || off > sp); }
void vp_cut_space(int *phase, gint *i, gint length, const gchar *buffer)
{
    gint r = (gint)(sp - o2);
    VP_ASSERT(in_packet(buffer) && buffer == P + o2 && length == (gint)(nul - o2), "the space is looked for in the text");
    VP_ASSERT(*i >= 0 && *i <= r, "no space before the scan position");
    if (*phase == 0) {
        *i = (gint)nondet_vp_u32();
        vp_assume(*i >= 0 && *i <= r);
        space_at(o2 + *i);
    } else { VP_REACH("scan iteration"); vp_assume(0); }
    (*phase)++;
}
char *strchr(const char *s, int c)
{
    __CPROVER_assert(c == ' ' && s == P + o2, "INAPPLICABLE other search");
    vp_assume(c == ' ' && s == P + o2);
    space_at(sp);
    return sp < (gsize)nul ? P + sp : NULL;
}
int atoi(const char *s)
{
    int r = 0, i;
    for (i = 0; i < 4 && s[i] >= '0' && s[i] <= '9'; i++) r = r * 10 + (s[i] - '0');
    __CPROVER_assert(i < 4, "INAPPLICABLE long number");
    return r;
}
/* ---- the records of a negotiation ---- */
static int cut_done; static gsize cut_i;
void vp_cut_requests(int *phase, gint *i, gsize length, const gchar *buffer, gboolean error_occurred)
{
    static gssize k;
    if (*phase == 0) {
        VP_ASSERT(*i == 0 && length == N - 13 && length > 0 && buffer == P + 13, "the requests follow the options");
        VP_ASSERT(n_sets == 0 && !error_occurred, "nothing requested yet");
        cut_i = nondet_vp_u32();
        vp_assume(cut_i <= length);
        vp_assume(VP_IMPLIES(cut_i == length, accept_));
        *i = (gint)cut_i;
        cut_done = cut_i == length;
        k = -1;
        if (cut_i + 4 <= length) {
            vp_retrack(13 + cut_i + 4);
            k = vp_first_nul(P + 13 + cut_i + 4, length - cut_i - 4);
        }
        vp_assume(VP_IMPLIES(accept_ && cut_i < length, k > 0 && command_of(be32(P + 13 + cut_i))));
    } else {
        VP_ASSERT(k > 0 && command_of(be32(P + 13 + cut_i)) && !error_occurred, "the loop goes on after a well-formed record only");
        VP_ASSERT(*i == (gint)(cut_i + 4 + k + 1), "the next record follows");
        VP_ASSERT(n_sets == 1 && n_splits == 1 && set_command == command_of(be32(P + 13 + cut_i)) && split_off == 13 + cut_i + 4,
                  "each record requests its symbols for its stage");
        VP_REACH("record");
        vp_assume(0);
    }
    (*phase)++;
}
#else
static int set_command[8]; static gchar **set_strings[8];
static void set_symbols(int command, const gchar **strings)
{ VP_ASSERT(n_sets <= 8, "model: too many records"); set_command[n_sets - 1] = command; set_strings[n_sets - 1] = g_strdupv((gchar **)strings); }
#endif


#ifdef CASE_reply_code
static gsize ext_end, text_at;  /* where the extended code ends and the text starts, 0 for none */
/* d.d.d with one to three digits each, up to a space or the end */
static gsize end_of_extended(const char *w)
{
    int group, at = 0;
    for (group = 0; group < 3; group++) {
        int n = 0;
        while (n < 3 && w[at] >= '0' && w[at] <= '9') { n++; at++; }
        if (n == 0) return 0;
        if (group < 2) { if (w[at] != '.') return 0; at++; }
    }
    return w[at] == ' ' || w[at] == '\0' ? at : 0;
}
#if defined(VP_A) && defined(LINES)
static int code_repeated;       /* the extended code stands behind the code behind the last line break found */
static char the_code[4], *the_ext;
#define CODE(i) the_code[i]
#else
#define CODE(i) P[1 + (i)]
#endif
/* behind a line break: where the line's own text starts */
static gsize line_text(gsize i)
{
    gsize k;
    if (P[i] != CODE(0) || P[i + 1] != CODE(1) || P[i + 2] != CODE(2) || (P[i + 3] != ' ' && P[i + 3] != '-')) return i;
    i += 4;
    if (!ext_end) return i;
#if defined(VP_A) && defined(LINES)
    k = code_repeated ? ext_end : o2;
#else
    for (k = o2; k < ext_end && P[i + k - o2] == P[k]; k++) ;
#endif
    if (k == ext_end && P[i + k - o2] == ' ') i += k - o2 + 1;
    return i;
}
#ifdef VP_A
static int code_is(const char *x) { return vp_is_copy(x, P + o2, ext_end - o2); }
#ifndef LINES
static int joined_object;
/* the contract of join_reply_lines: its result is named by its text (case
 * reply_code_lines) */
gchar *gh_join(const gchar *message, const gchar *code, const gchar *extended_code)
{
    VP_ASSERT(in_packet(message) && text_at && message == P + text_at, "the text is what follows the codes");
    VP_ASSERT(in_packet(code) && code == P + 1, "repeated codes are recognised by the code of the reply");
    VP_ASSERT(ext_end ? extended_code && code_is(extended_code) : extended_code == NULL, "repeated extended codes are recognised");
    joined_object++;
    return g_strdup(message);
}
static int text_is(const char *m) { return joined_object == 1 && vp_is_copy(m, P + text_at, nul - text_at); }
#else
/* the joined text is written line by line: everything up to jpos is written as
 * it has to be */
static gsize jpos; static int joined;
static gsize found_from; static gssize found;   /* the last search for a line break */
static GString js; static char js_text[1];
char *strstr(const char *s, const char *t)
{
    gssize i;
    VP_ASSERT(in_packet(s) && (gsize)(s - P) <= (gsize)nul && t[0] == '\r' && t[1] == '\n' && t[2] == '\0', "line breaks are looked for in the text");
    found_from = s - P;
    if (vp_bool("none")) { found = -1; return NULL; }
    found = nondet_vp_u32();
    vp_assume(found >= (gssize)found_from && found + 1 < nul && P[found] == '\r' && P[found + 1] == '\n');
    for (i = 2; i < 6 && found + i < nul; i++) vp_assume(P[found + i] != '\0');
    code_repeated = vp_bool("repeated");
    vp_assume(VP_IMPLIES(code_repeated, ext_end && found + 6 + (gssize)(ext_end - o2) <= nul));
    return P + found;
}
int strncmp(const char *a, const char *b, size_t n)
{
    gsize i;
    if (b != the_code) {
        VP_ASSERT(ext_end && b == the_ext && n == ext_end && found >= 0 && a == P + found + 6, "a repeated extended code is recognised as a whole");
        return !code_repeated;
    }
    VP_ASSERT(in_packet(a) && n == 3, "a repeated code is recognised by its three digits");
    for (i = 0; i < 3; i++) if (a[i] != b[i]) return 1;
    return 0;
}
GString *g_string_new(const gchar *v)
{ VP_ASSERT(!v && !joined, "one text is made"); js.str = js_text; js.len = 0; jpos = text_at; return &js; }
GString *g_string_append_len(GString *g, const gchar *v, gssize n)
{
    VP_ASSERT(g == &js && !joined && v == P + jpos && found_from == jpos, "the text is written in order");
    VP_ASSERT(n < 0 ? found < 0 : found >= 0 && (gsize)found == jpos + n, "a line is written up to its break");
    if (n < 0) joined = 1; else { jpos += n; g->len++; }
    return g;
}
GString *g_string_append(GString *g, const gchar *v) { return g_string_append_len(g, v, -1); }
GString *g_string_append_c(GString *g, gchar c)
{
    VP_ASSERT(g == &js && !joined && c == '\n' && found >= 0 && jpos == (gsize)found, "a line break is a newline");
    jpos = line_text(jpos + 2);
    found_from = (gsize)-1;
    return g;
}
GString *g_string_insert_c(GString *g, gssize at, gchar c) { VP_ASSERT(at < 0, "the text is written in order"); return g_string_append_c(g, c); }
gchar *g_string_free(GString *g, gboolean all) { VP_ASSERT(g == &js && !all, "the text is handed over"); return g->str; }
void vp_cut_lines(int *phase, const gchar **line)
{
    VP_ASSERT(*line == P + jpos, "the next line follows, without the codes it repeats");
    if (*phase == 0) {
        VP_ASSERT(jpos == text_at, "the text is what follows the codes");
        jpos = nondet_vp_u64();
        vp_assume(jpos >= text_at && jpos <= (gsize)nul);
        *line = P + jpos;
    } else { VP_REACH("line"); vp_assume(0); }
    (*phase)++;
}
#endif
#else
static int code_is(const char *x)
{ gsize i; for (i = 0; i < ext_end - o2; i++) if (x[i] != P[o2 + i]) return 0; return x[i] == '\0'; }
/* the lines of the text, each without the codes it repeats */
static int text_is(const char *m)
{
    gsize i = text_at, w = 0;
    while (P[i] != '\0') {
        if (P[i] != '\r' || P[i + 1] != '\n') { if (m[w++] != P[i++]) return 0; continue; }
        if (m[w++] != '\n') return 0;
        i += 2;
        i = line_text(i);
    }
    return m[w] == '\0';
}
#endif
#endif

static int is_text_or_null(const void *p, gsize off)
{ if (P[off] == '\0') return p == NULL || *(const char *)p == '\0'; return p != NULL && is_text(p, off); }
static void vp_emitted(VpEmit *e)
{
    n_emitted++;
    VP_ASSERT(accept_ || maybe_, "nothing is reported for a malformed packet");
#if defined(CASE_simple)
    VP_ASSERT(vp_is(e, P[0] == 'c' ? "continue" : P[0] == 't' ? "temporary-failure" : P[0] == 'r' ? "reject" :
                    P[0] == 'a' ? "accept" : P[0] == 'd' ? "discard" : P[0] == 'p' ? "progress" :
                    P[0] == 'f' ? "connection-failure" : P[0] == '4' ? "shutdown" : "skip"), "the reply is reported");
#elif defined(CASE_reply_code)
    VP_ASSERT(vp_is(e, "reply-code"), "reply code reported");
    VP_ASSERT(e->a[0].u == (guint)((P[1] - '0') * 100 + (P[2] - '0') * 10 + (P[3] - '0')), "the number of the reply");
    /* "550 5.7.1 text", "550 text", "550 5.7.1", "550"; the text is the rest,
     * its lines joined (join_text) */
#if defined(VP_A) && defined(LINES)
#define text_is(m) 0
#endif
    VP_ASSERT(ext_end ? e->a[1].p && code_is(e->a[1].p) : e->a[1].p == NULL, "the extended code, when there is one");
    if (text_at) VP_ASSERT(e->a[2].p && text_is(e->a[2].p), "the text is what follows the codes");
    else VP_ASSERT(e->a[2].p == NULL, "no text after the codes");
#elif defined(CASE_add_header)
    VP_ASSERT(vp_is(e, "add-header") && is_text(e->a[0].p, 1) && is_text_or_null(e->a[1].p, o2), "added header reported with its name and value");
#elif defined(CASE_insert_header)
    VP_ASSERT(vp_is(e, "insert-header") && (guint)e->a[0].u == be32(P + 1) && is_text(e->a[1].p, 5) && is_text_or_null(e->a[2].p, o2),
              "inserted header reported with its place, name and value");
#elif defined(CASE_change_header)
    if (P[o2] == '\0')
        VP_ASSERT(vp_is(e, "delete-header") && is_text(e->a[0].p, 5) && (guint)e->a[1].u == be32(P + 1), "changing a header to nothing deletes it");
    else
        VP_ASSERT(vp_is(e, "change-header") && is_text(e->a[0].p, 5) && (guint)e->a[1].u == be32(P + 1) && is_text(e->a[2].p, o2),
                  "changed header reported with its name, number and value");
#elif defined(CASE_change_from) || defined(CASE_add_recipient_parameters)
#ifdef CASE_change_from
    VP_ASSERT(vp_is(e, "change-from"), "changed sender reported");
#else
    VP_ASSERT(vp_is(e, "add-recipient"), "added recipient reported");
#endif
    VP_ASSERT(is_text(e->a[0].p, 1), "the address of the packet");
    if (o2 < N) VP_ASSERT(is_text_or_null(e->a[1].p, o2), "the parameters of the packet");
    else VP_ASSERT(e->a[1].p == NULL, "no parameters");
#elif defined(CASE_add_recipient)
    VP_ASSERT(vp_is(e, "add-recipient") && is_text(e->a[0].p, 1) && e->a[1].p == NULL, "added recipient reported");
#elif defined(CASE_delete_recipient)
    VP_ASSERT(vp_is(e, "delete-recipient") && is_text(e->a[0].p, 1), "deleted recipient reported");
#elif defined(CASE_quarantine)
    VP_ASSERT(vp_is(e, "quarantine") && is_text(e->a[0].p, 1), "quarantine reported with its reason");
#elif defined(CASE_replace_body)
    VP_ASSERT(vp_is(e, "replace-body"), "replaced body reported");
    VP_ASSERT(e->a[1].u == N - 1, "body chunk length");
    VP_ASSERT(N == 1 || VP_UNCUT(e, 0), "the body chunk is not cut at a NUL byte");
    if (vp_W < N - 1) VP_ASSERT(((const char *)e->a[0].p)[vp_W] == P[1 + vp_W], "body chunk byte");
#elif defined(CASE_negotiate)
    VP_ASSERT(vp_is(e, "negotiate-reply") && e->a[0].p == &vp_opt && vp_opt.live, "negotiation reported");
    VP_ASSERT(vp_opt.version == be32(P + 1) && vp_opt.action == be32(P + 5) && vp_opt.step == be32(P + 9),
              "negotiated version, actions and steps");
    VP_ASSERT(e->a[1].p == (N > 13 ? (gpointer)&req_object : NULL), "macro requests are reported if there are any");
#ifdef VP_A
    VP_ASSERT(N == 13 || cut_done, "every request of the packet is reported");
#else
    {
        gsize i = 13; int n = 0;
        while (i < N) {
            gchar **v = g_strsplit(P + i + 4, " ", -1); int j;
            VP_ASSERT(n < n_sets && set_command[n] == command_of(be32(P + i)), "each record requests its symbols for its stage");
            for (j = 0; v[j]; j++) VP_ASSERT(set_strings[n][j] && strcmp(set_strings[n][j], v[j]) == 0, "each record requests its symbols for its stage");
            VP_ASSERT(set_strings[n][j] == NULL, "each record requests its symbols for its stage");
            i += 4 + strlen(P + i + 4) + 1; n++;
        }
        VP_ASSERT(n == n_sets, "every request of the packet is reported");
    }
#endif
#else
    VP_ASSERT(0, "no signal for an unknown reply byte");
#endif
#if !defined(CASE_other)
    VP_REACH("signal");
#endif
}

static MilterReplyDecoder obj;
static MilterReplyDecoderClass klass;

#if defined(VP_A) && defined(LINES)
/* stands for the real (static) join_reply_lines() */
gchar *vp_join(const gchar *message, const gchar *code, const gchar *extended_code)
{ __CPROVER_assert(0, "INAPPLICABLE no join_reply_lines()"); vp_assume(0); return NULL; }
/* the joining of the lines by itself: any text, any code, any extended code */
int vp_main(void)
{
    gchar *m;
    vp_witness();
    N = nondet_vp_u64();
    vp_assume(N >= 1 && N <= VP_AMAX);
    P = vp_block("text", N);
    nul = vp_first_nul(P, N);
    vp_assume(nul >= 0);
    the_code[0] = nondet_vp_u8(); the_code[1] = nondet_vp_u8(); the_code[2] = nondet_vp_u8();
    vp_assume(the_code[0] && the_code[1] && the_code[2]);
    the_code[3] = vp_bool("dash") ? '-' : ' ';
    if (vp_bool("extended")) { ext_end = nondet_vp_u8(); vp_assume(ext_end >= 5 && ext_end <= 11); the_ext = vp_cstr_n("ext", ext_end); }
    m = vp_join(P, the_code, the_ext);
    VP_ASSERT(m == js_text && joined, "the joined text is the result");
    VP_REACH("joined");
    return 0;
}
#else
int vp_main(void)
{
    int i;
    gssize r;
    vp_witness();
    vp_packet();
#if defined(CASE_simple)
    {
        char c = "ctradpf4s"[vp_below("which", 9)];
        VP_PUT(0, c);
    }
    accept_ = N == 1;
#elif defined(CASE_reply_code)
    VP_PUT(0, 'y');
#ifndef VP_A
    if (N > 3 && vp_bool("sensible")) { P[1] = '4' + (P[1] & 1); P[2] = '0' + (guint8)P[2] % 10; P[3] = '0' + (guint8)P[3] % 10;
        for (i = 4; i < (int)N; ) {
            int w = vp_below("piece", 8); const char *t = "a"; char code[5] = { P[1], P[2], P[3], P[4] == '-' ? '-' : ' ', 0 };
            switch (w) {
            case 0: t = "5.7.1"; break; case 1: t = "5.7.1 "; break; case 2: t = "\r\n"; break; case 3: t = code; break;
            case 4: t = " "; break; case 5: t = "-"; break; case 6: t = vp_bool("dot") ? "." : "\r"; break; }
            while (*t && i < (int)N) P[i++] = *t++;
        }
        if (vp_bool("end")) P[N - 1] = '\0'; }
#endif
    accept_ = N >= 4 && (P[1] == '4' || P[1] == '5') && P[2] >= '0' && P[2] <= '9' && P[3] >= '0' && P[3] <= '9';
#ifdef VP_A
    if (accept_) { r = vp_first_nul(P + 1, N - 1); vp_assume(r < 0 || r >= 3); vp_retrack(4); }
#endif
    if (accept_) {
        nul = vp_first_nul(P + 4, N - 4);
#ifdef VP_A
        vp_scan_from(1);        /* the digits are not NUL */
#endif
        if (nul < 0) accept_ = 0;
        else { nul += 4; o2 = 4 + (P[4] == ' ' || P[4] == '-');
#ifdef VP_A
            sp = nondet_vp_u64(); vp_assume(sp >= o2 && sp <= (gsize)nul && (sp == (gsize)nul || P[sp] == ' '));
#endif
            {
                char w[13];     /* the first bytes of the text */
                for (i = 0; i < 12; i++) w[i] = 'x';
                w[12] = 0;
                for (i = 0; i < 12; i++) {
                    w[i] = P[o2 + i];
#ifdef VP_A
                    vp_assume((w[i] == '\0') == (o2 + i == (gsize)nul));
                    vp_assume(o2 + i > sp || (w[i] == ' ') == (o2 + i == sp && sp < (gsize)nul));
#endif
                    if (o2 + i == (gsize)nul) break;
                }
                ext_end = end_of_extended(w);
                if (ext_end) ext_end += o2;
            }
            text_at = ext_end ? (P[ext_end] == ' ' ? ext_end + 1 : 0) : o2 < (gsize)nul ? o2 : 0;
        }
    }
#elif defined(CASE_add_header)
    VP_PUT(0, 'h');
    r = vp_first_nul(P + 1, N - 1);
    o2 = r + 2;
    accept_ = r > 0 && vp_first_nul(P + o2, N - o2) >= 0;
#elif defined(CASE_insert_header) || defined(CASE_change_header)
#ifdef CASE_insert_header
    VP_PUT(0, 'i');
#else
    VP_PUT(0, 'm');
#endif
    accept_ = N >= 5;
    if (accept_) {
#ifdef VP_A
        vp_retrack(5);
#endif
        r = vp_first_nul(P + 5, N - 5);
        o2 = r + 6;
        accept_ = r > 0 && vp_first_nul(P + o2, N - o2) >= 0;
    }
#elif defined(CASE_change_from) || defined(CASE_add_recipient_parameters)
#ifdef CASE_change_from
    VP_PUT(0, 'e');
#else
    VP_PUT(0, '2');
#endif
    r = vp_first_nul(P + 1, N - 1);
    accept_ = r > 0;
    o2 = r + 2;
    if (accept_ && o2 < N) {
        r = vp_first_nul(P + o2, N - o2);
        accept_ = r > 0;
        maybe_ = r == 0;        /* empty parameters: rejected or none */
    }
#elif defined(CASE_add_recipient) || defined(CASE_delete_recipient) || defined(CASE_quarantine)
#if defined(CASE_add_recipient)
    VP_PUT(0, '+');
#elif defined(CASE_delete_recipient)
    VP_PUT(0, '-');
#else
    VP_PUT(0, 'q');
#endif
    accept_ = vp_first_nul(P + 1, N - 1) > 0;
#elif defined(CASE_replace_body)
    VP_PUT(0, 'b');
    accept_ = 1;
#elif defined(CASE_negotiate)
    VP_PUT(0, 'O');
    accept_ = N >= 13;
#ifdef VP_A             /* tied to the packet by the loop invariant */
    { int any = vp_bool("wf"); if (N > 13) accept_ = accept_ && any; }
#else
    if (N > 13 && vp_bool("sensible")) {        /* a record or two */
        gsize j = 13;
        while (j < N) {
            gsize k = j + 4 + 1 + vp_below("len", 5);
            if (j + 4 < N) { P[j] = P[j + 1] = P[j + 2] = 0; P[j + 3] = vp_below("stage", 8); }
            for (j += 4; j < k && j < N; j++) P[j] = "ab { }"[(guint8)P[j] % 6];
            if (j < N) P[j++] = 0;
        }
        if (vp_bool("end")) P[N - 1] = 0;
    }
    if (accept_) {
        gsize j = 13;
        while (accept_ && j < N) {
            if (N - j < 4) { accept_ = 0; break; }
            r = vp_first_nul(P + j + 4, N - j - 4);
            if (r <= 0 || !command_of(be32(P + j))) { accept_ = 0; break; }
            j += 4 + r + 1;
        }
    }
#endif
#elif defined(CASE_other)
    for (i = 0; i < 20; i++) vp_assume(P[0] != "Octradpf4syhime+2-bq"[i]);
    accept_ = 0;
#endif
#ifndef VP_A
    vp_class_init(milter_decoder_get_type(), &klass.parent_class);
#endif
    milter_reply_decoder_get_type();
    vp_class_init(milter_reply_decoder_get_type(), &klass);
#if !defined(CASE_other)
    if (accept_) VP_REACH("a well-formed packet exists");
#endif
#if !defined(CASE_replace_body)
    if (!accept_) VP_REACH("a malformed packet exists");
#endif
    vp_decode_run((MilterDecoder *)&obj, &klass.parent_class);
    if (!maybe_) {
        VP_ASSERT(!!ok == !!accept_, "accepted exactly when well formed");
        VP_ASSERT(n_emitted == (accept_ ? 1 : 0), "one signal for a well-formed packet, none otherwise");
    } else
        VP_ASSERT(n_emitted == !!ok, "one signal for an accepted packet, none otherwise");
    VP_ASSERT(VP_IMPLIES(ok, err == NULL), "no error for a well-formed packet");
#ifndef VP_A
    VP_ASSERT(VP_IMPLIES(!ok, err != NULL), "a malformed packet is reported as an error");
#endif
    return 0;
}
#endif
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
