/* CUT: milter/core/milter-utils.c milter_utils_format_reply_code 0 */
/* The contract of milter_utils_format_reply_code(): every line of the text
 * carries the reply code (and the extended code), lines are separated by CRLF,
 * a text of one line has none.
 *
 *  A  a text of any number of lines of any length: one line is followed,
 *     starting from any of them; a built text is a list of pieces
 *  N  the same over real texts */
#include "vp.h"
#ifdef VP_A
#define VP_OWN_GSTRING 1
#define VP_OWN_STRDUP_PRINTF 1
#define VP_OWN_APPEND_PRINTF 1
#endif
#include "milter/core/milter-utils.c"

static guint code_; static const char *ext_;
#ifdef VP_A
/* pieces of the text built: a byte, the code as three digits or more, a text */
typedef struct { int kind; gconstpointer s; guint u; } Piece;
#define NP 24
static Piece R_[NP]; static int n_pieces, overflow;
static void put(int kind, gconstpointer s, guint u)
{
    if (n_pieces < NP) { R_[n_pieces].kind = kind; R_[n_pieces].s = s; R_[n_pieces].u = u; n_pieces++; } else overflow = 1;
}
static void put_text(const gchar *v)            /* a constant, byte by byte, or one of the texts given */
{
    int i;
    if (v == ext_ || vp_len(v) > 3) { put('s', v, 0); return; }
    for (i = 0; i < 3 && v[i]; i++) put('c', NULL, (guchar)v[i]);
}
static GString G_; static char mem_[1];
static void format(const gchar *f, va_list ap)
{
    int i;
    for (i = 0; i < 12 && f[i]; i++) {
        if (f[i] != '%') { put('c', NULL, (guchar)f[i]); continue; }
        if (f[i + 1] == '3') i++;
        i++;
        if (f[i] == 'u' || f[i] == 'd') put('u', NULL, va_arg(ap, guint));
        else { VP_ASSERT(f[i] == 's', "model: format"); put('s', va_arg(ap, gconstpointer), 0); }
    }
}
GString *g_string_new(const gchar *v) { G_.str = mem_; G_.len = 0; if (v) put_text(v); return &G_; }
GString *g_string_sized_new(gsize n) { return g_string_new(NULL); }
void g_string_append_printf(GString *g, const gchar *f, ...) { va_list ap; va_start(ap, f); format(f, ap); va_end(ap); }
GString *g_string_append(GString *g, const gchar *v) { put_text(v); return g; }
GString *g_string_append_len(GString *g, const gchar *v, gssize n) { put('s', v, 0); return g; }
GString *g_string_insert_c(GString *g, gssize at, gchar c) { VP_ASSERT(at < 0, "model: insertion"); put('c', NULL, (guchar)c); return g; }
GString *g_string_append_c(GString *g, gchar c) { put('c', NULL, (guchar)c); return g; }
static gchar *the_text = mem_;
gchar *g_string_free(GString *g, gboolean all) { VP_ASSERT(g == &G_ && !all, "the text is given"); return the_text; }
gchar *g_strdup_printf(const gchar *f, ...) { va_list ap; va_start(ap, f); format(f, ap); va_end(ap); return the_text; }

/* the lines: L_[0] is any line of the text */
static gchar *lines_[4];
#ifdef LATER
#define L_ (lines_ + 1)
#else
#define L_ lines_
#endif
static gsize len_[2]; static char last_[2]; static const char *message_; static int phase_, n_split, n_freed;
/* L_: the first line of the text, or any later one */
static void any_line(void)
{
    int i, more = vp_bool("more lines");
    for (i = 0; i < 2; i++) {
        L_[i] = vp_cstr("line"); len_[i] = vp_len(L_[i]);
        last_[i] = len_[i] ? L_[i][len_[i] - 1] : 0;
    }
    if (!more) L_[1] = NULL;
    L_[2] = NULL;
}
gchar **g_strsplit(const gchar *s, const gchar *d, gint max)
{
    VP_ASSERT(s == message_ && d[0] == '\n' && d[1] == '\0' && max < 1, "the lines of the text");
    n_split++; any_line();
    return lines_;
}
void g_strfreev(gchar **v) { VP_ASSERT(v == lines_, "the lines are freed"); n_freed++; }
/* is p[at...] one line, formatted? */
static int line_ok(int *at, const gchar *line, gsize n, char last, int blank_may_stay)
{
    int i = *at;
#define IS(k, w) (i < n_pieces && R_[i].kind == (k) && (w))
    if (!IS('u', R_[i].u == code_)) return 0;
    i++;
    if (ext_) {
        if (!IS('c', R_[i].u == ' ')) return 0;
        i++;
        if (!IS('s', R_[i].s == ext_)) return 0;
        i++;
    }
    if (n > 0 && IS('c', R_[i].u == ' ')) {
        i++;
        if (IS('s', R_[i].s == line)) i++;
        else if (n > 3) return 0;
        else { gsize k, m = n - (last == '\r'); for (k = 0; k < 3; k++) if (k < m) { if (!IS('c', R_[i].u == (guchar)line[k])) return 0; i++; } }
    } else if (n > 1 || (n == 1 && last != '\r')) return 0;
    *at = i;
    return 1;
}
static void check_line(void)
{
    int at = 0; const gchar *l = L_[0];
    VP_ASSERT(line_ok(&at, l, len_[0], last_[0], 1), "a line carries the code, the extended code and its text");
    VP_ASSERT(VP_IMPLIES(len_[0], l[len_[0] - 1] == (last_[0] == '\r' ? 0 : last_[0])) && l[len_[0]] == 0, "without the CR of its end");
    if (L_[1]) {
        VP_ASSERT(at + 2 <= n_pieces && R_[at].kind == 'c' && R_[at].u == '\r' && R_[at + 1].kind == 'c' && R_[at + 1].u == '\n', "lines are separated by CRLF");
        at += 2;
    }
    VP_ASSERT(at == n_pieces && !overflow, "and there is nothing else");
}
void vp_cut_format(int *phase, gchar ***messages)
{
    if (*phase == 0) {
        VP_ASSERT(*messages == lines_ && n_split == 1 && n_pieces == 0, "the first line comes first");
        phase_ = 1;
#ifdef LATER
        lines_[0] = vp_cstr("before"); *messages = L_;
#endif
    } else if (*phase == 1) {
        check_line();
        VP_ASSERT(*messages == L_ + 1, "one line after the other");
        if (L_[1]) { VP_REACH("another line"); vp_assume(0); }
        VP_REACH("last line");
    }
    (*phase)++;
}
#endif

int vp_main(void)
{
    const char *text, *ext; gchar *r;
    vp_witness();
    code_ = 400 + vp_below("code", 200);
#ifdef VP_A
    text = vp_bool("text") ? vp_cstr("text") : NULL; message_ = text;
    ext = vp_bool("ext") ? vp_cstr("ext") : NULL; ext_ = ext;
    r = milter_utils_format_reply_code(code_, ext, text);
    VP_ASSERT(r == the_text, "there is a text");
    if (!text || text[0] == '\0') {
        int at = 0;
        VP_ASSERT(n_split == 0 || phase_, "model: no text");
        if (!n_split) { VP_ASSERT(line_ok(&at, NULL, 0, 0, 0) && at == n_pieces, "without a text the code is given"); VP_REACH("no text"); }
        return 0;
    }
    VP_ASSERT(n_freed == 1, "the lines are freed");
    VP_ASSERT(!L_[0] || !L_[1], "no line is left out");         /* with another one, the way ends at the head of the loop */
    VP_REACH("text");
#else
    {
        char t[12], want[400]; int i, k = 0, n = vp_below("n", 9), m = 0, start = 1; static const char some[] = "ab\n\n\r. ";
        for (i = 0; i < n; i++) t[i] = some[vp_below("c", 7)];
        t[n] = 0;
        text = vp_bool("text") ? t : NULL; ext = vp_bool("ext") ? "5.7.1" : NULL;
        r = milter_utils_format_reply_code(code_, ext, text);
        want[0] = 0;
        for (i = 0; ; ) {
            int e = i, len;
            while (text && t[e] && t[e] != '\n') e++;
            len = text ? e - i : 0;
            k += sprintf(want + k, ext ? "%u %s" : "%u", code_, ext);
            if (len > 0 && !(len == 1 && t[i] == '\r')) k += sprintf(want + k, " %.*s", t[e - 1] == '\r' ? len - 1 : len, t + i);
            else if (len == 1 && strncmp(r + k, " ", 1) == 0) k += sprintf(want + k, " ");
            if (!text || !t[e]) break;
            k += sprintf(want + k, "\r\n");
            i = e + 1;
        }
        (void)m; (void)start;
        VP_ASSERT(strcmp(r, want) == 0, "every line of the text carries the code");
        g_free(r);
    }
#endif
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
