/* CUT: milter/core/milter-decoder.c milter_decoder_decode 0 */
/* CUT: milter/core/milter-decoder.c find_null_character 0 */
/* CUT: milter/core/milter-decoder.c append_inspected_bytes 0 */
/* Contracts of the decoder base class: framing (stream -> packets), and the
 * helpers the concrete decoders build on. */
#include "vp.h"
#ifdef VP_A
#define VP_OWN_GSTRING 1
/* g_string_append_printf builds diagnostic text only; its %s arguments are
 * messages or the inspected bytes */
void g_string_append_printf(GString *g, const gchar *fmt, ...) { }
#define VP_OWN_APPEND_PRINTF 1
#endif
#include "milter/core/milter-decoder.c"

static MilterDecoder obj;
static MilterDecoderPrivate priv_;
static GError *err;
static struct { GObject o; guint32 version, action, step; int live; } vp_opt;
MilterOption *milter_option_new(guint32 v, MilterActionFlags a, MilterStepFlags s)
{
    vp_opt.version = v; vp_opt.action = a; vp_opt.step = s; vp_opt.live = 1;
    return (MilterOption *)&vp_opt;
}
static guint32 be32(const char *p)
{ return ((guint32)(guint8)p[0] << 24) | ((guint32)(guint8)p[1] << 16) | ((guint32)(guint8)p[2] << 8) | (guint8)p[3]; }

/* the stream: S[0..total); the decoder's buffer is a window on its end */
static char *S; static gsize total, pos;   /* pos: start of the next packet to deliver */
static int n_emitted, rejected; static int verdict[64];
static gboolean allow_critical;

#ifdef VP_A
/* ---- GString as a window [base, base+len) on the ghost stream ---- */
static gsize gs_base(GString *g) { return (gsize)(g->str - S); }
GString *g_string_new(const gchar *v)
{ GString *g = malloc(sizeof(GString)); g->str = (char *)v; g->len = 0; return g; }
gchar *g_string_free(GString *g, gboolean all) { return NULL; }
gchar *g_string_free_and_steal(GString *g) { return g->str; }
GString *g_string_append(GString *g, const gchar *v) { return g; }  /* messages */
GString *g_string_append_len(GString *g, const gchar *v, gssize n)
{
    VP_ASSERT(v == g->str + g->len && n >= 0 && gs_base(g) + g->len + n <= total,
              "received bytes are appended exactly as they came");
    g->len += n;
    return g;
}
GString *g_string_insert_len(GString *g, gssize p, const gchar *v, gssize n)
{
    __CPROVER_assert(p < 0 || (gsize)p == g->len, "INAPPLICABLE insertion in the middle");
    return g_string_append_len(g, v, n);
}
GString *g_string_erase(GString *g, gssize p, gssize n)
{
    __CPROVER_assert(p == 0, "INAPPLICABLE erase in the middle");
    __CPROVER_assume(p == 0);
    if (n < 0) n = g->len;
    VP_ASSERT((gsize)n <= g->len, "erased bytes are in the buffer");
    g->str += n; g->len -= n;
    return g;
}
GString *g_string_truncate(GString *g, gsize n)
{ if (n < g->len) { VP_ASSERT(n == 0, "no received byte is dropped from the end"); g->str += g->len; g->len = 0; } return g; }
#endif

#if defined(VP_A)
static GString buf_;
/* what the private state means between two steps */
static int meaning(void)
{
    gsize base = gs_base(priv_.buffer), len = priv_.buffer->len;
    if (base + len != total) return 0;
    switch (priv_.state) {
    case IN_START: case IN_COMMAND_LENGTH: return base == pos && !rejected;
    case IN_COMMAND_CONTENT: return base == pos + 4 && !rejected && priv_.command_length >= 1 && (guint32)priv_.command_length == be32(S + pos);
    case IN_ERROR: return rejected;
    }
    return 0;
}
static int rest_incomplete(void)
{
    if (total - pos < 4) return 1;
    return (gint32)be32(S + pos) >= 1 && total - pos - 4 < be32(S + pos);
}
/* loop invariant of milter_decoder_decode */
void vp_cut_decode(int *phase, gboolean *loop, gboolean *success)
{
    int inv;
#ifndef CASE_after_error
    if (*phase == 1) VP_REACH("decode loop iteration");
#endif
    if (*phase == 0 || *phase == 1) {
        /* a packet without a command byte is rejected by its length */
        if (!rejected && total - pos >= 4 && (gint32)be32(S + pos) < 1) rejected = priv_.state == IN_ERROR;
        inv = meaning();
        VP_ASSERT(inv, "the decoder state describes the undelivered part of the stream");
        VP_ASSERT(*loop || rejected || rest_incomplete(), "the loop stops only when no complete packet is left");
        VP_ASSERT(!!*success == !rejected, "success is reported exactly while nothing was rejected");
        VP_ASSERT(VP_IMPLIES(rejected, !*loop && err != NULL), "a rejection stops decoding and sets the error");
        VP_ASSERT(VP_IMPLIES(!rejected, err == NULL), "no error without a rejection");
        VP_ASSERT((priv_.state != IN_COMMAND_LENGTH || total > pos) && (*loop || priv_.state != IN_START || total == pos), "the state tells whether a packet has begun");
    }
    if (*phase == 1) vp_assume(0);
    if (*phase == 0) {
        *loop = vp_bool("loop"); *success = vp_bool("success");
        rejected = vp_bool("rejected"); err = rejected ? vp_error("e") : NULL;
        pos = nondet_vp_u64(); n_emitted = 0;
        priv_.state = nondet_vp_u32() & 3; priv_.command_length = (gint32)nondet_vp_u32();
        { gsize b = nondet_vp_u64(); vp_assume(b <= total); priv_.buffer->str = S + b; priv_.buffer->len = total - b; }
        vp_assume(pos <= total && (priv_.state != IN_COMMAND_CONTENT || total - pos >= 4));
        vp_assume(meaning());
        vp_assume(*loop || rejected || rest_incomplete());
        vp_assume(!!*success == !rejected);
        vp_assume(VP_IMPLIES(rejected, !*loop));
        vp_assume((priv_.state != IN_COMMAND_LENGTH || total > pos) && (*loop || priv_.state != IN_START || total == pos));
    }
    (*phase)++;
}
/* find_null_character: no NUL before i */
void vp_cut_find_null(int *phase, gint *i, gint length, const gchar *buffer)
{
    gssize r = vp_first_nul(buffer, length);
    VP_ASSERT(*i >= 0 && (length < 0 ? *i == 0 : *i <= length) && (r < 0 || *i <= r), "no NUL byte before the scan position");
    if (*phase == 0) {
        *i = (gint)nondet_vp_u32();
        vp_assume(*i >= 0 && (length < 0 ? *i == 0 : *i <= length) && (r < 0 || *i <= r));
        /* r is the first NUL: at i, the byte is NUL iff i == r */
        if (*i < length) vp_assume((buffer[*i] == '\0') == (*i == r));
    } else { VP_REACH("scan iteration"); vp_assume(0); }
    (*phase)++;
}
void vp_cut_inspect(int *phase, gsize *i, gsize length)
{
    VP_ASSERT(*i <= length, "inspection stays inside");
    if (*phase == 0) { *i = nondet_vp_u64(); vp_assume(*i <= length); }
    else vp_assume(0);
    (*phase)++;
}
#endif

void vp_on_emit(VpEmit *e)
{
    MilterDecoder *d = e->instance;
    const char *b = milter_decoder_get_buffer(d);
    gsize n = be32(S + pos), k;
    VP_ASSERT(vp_is(e, "decode"), "the packet is handed to the decoder class");
    VP_ASSERT(!rejected, "nothing is delivered after a rejected packet");
    VP_ASSERT(total - pos >= 4 && (gint32)n >= 1 && total - pos - 4 >= n, "only complete packets are delivered");
    VP_ASSERT(milter_decoder_get_command_length(d) == (gint32)n, "the packet has its announced length");
#ifdef VP_A
    VP_ASSERT(b == S + pos + 4, "the packet's bytes are delivered");
    VP_ASSERT(e->a[0].p == &err, "the caller's error location is passed on");
#else
    for (k = 0; k < n; k++) VP_ASSERT(b[k] == S[pos + 4 + k], "the packet's bytes are delivered");
#endif
    VP_ASSERT(n_emitted < 60, "model: too many packets");
    verdict[n_emitted] = vp_bool("accepted");
    e->ret = verdict[n_emitted];
    if (!verdict[n_emitted]) {
        rejected = 1;
        if (vp_bool("with error")) g_set_error((GError **)e->a[0].p, 5, 5, "rejected");
    }
    n_emitted++;
    pos += 4 + n;
#ifndef CASE_after_error
    VP_REACH("packet delivered");
#endif
}

int vp_main(void)
{
    vp_witness();
    vp_set_private(&obj, milter_decoder_get_type(), &priv_);
#ifdef CASE_init
    vp_instance_init(milter_decoder_get_type(), (milter_decoder_get_type(), &obj));
    VP_ASSERT(priv_.state == IN_START && priv_.buffer->len == 0, "a new decoder has received nothing");
    VP_REACH("new decoder");
#elif defined(CASE_decode) || defined(CASE_end_decode) || defined(CASE_after_error)
    {
        static MilterDecoderClass klass;
        vp_class_init(milter_decoder_get_type(), &klass);
    }
#ifdef VP_A
    {
        gsize had, base, size; gboolean ok;
        total = nondet_vp_u64(); vp_assume(total <= VP_AMAX);
        S = malloc(total + 1);
        had = nondet_vp_u64(); vp_assume(had <= total);
        size = total - had; total = had;
        pos = nondet_vp_u64(); vp_assume(pos <= total);
        base = nondet_vp_u64(); vp_assume(base <= total);
        buf_.str = S + base; buf_.len = total - base;
        priv_.buffer = &buf_; priv_.state = nondet_vp_u32() & 3; priv_.command_length = (gint32)nondet_vp_u32();
#ifdef CASE_after_error
        rejected = 1;
#endif
        vp_assume(priv_.state != IN_COMMAND_CONTENT || total - pos >= 4);
        vp_assume(meaning() && (rejected || rest_incomplete()));
        vp_assume(priv_.state != IN_COMMAND_LENGTH || total > pos);
        vp_assume(priv_.state != IN_START || total == pos);
#ifdef CASE_decode
        {
            gsize old = total;
            total += size;
            ok = milter_decoder_decode(&obj, S + old, size, &err);
        }
        if (size > 0) {
            VP_ASSERT(!!ok == !rejected, "result tells whether a packet was rejected");
            VP_ASSERT(VP_IMPLIES(!ok, err != NULL), "a rejected packet is reported as an error");
            VP_ASSERT(VP_IMPLIES(ok, err == NULL), "no error otherwise");
            VP_ASSERT(rejected || rest_incomplete(), "every complete packet is delivered");
            VP_ASSERT(priv_.state != IN_START || rejected || total == pos, "state between calls");
        } else
            VP_ASSERT(ok && err == NULL && n_emitted == 0, "an empty read changes nothing");
        VP_ASSERT(meaning(), "exactly the undelivered bytes are kept");
        VP_REACH("decoded");
#elif defined(CASE_after_error)
        allow_critical = TRUE;
        total += size;
        ok = milter_decoder_decode(&obj, S + total - size, size, &err);
        VP_ASSERT(!ok || size == 0, "data after a rejection is refused");
        VP_ASSERT(n_emitted == 0 && priv_.state == IN_ERROR, "nothing is delivered after a rejected packet");
        VP_REACH("after error");
#else
        ok = milter_decoder_end_decode(&obj, &err);
        VP_ASSERT(!!ok == (total == pos), "the stream may end between packets only");
        VP_ASSERT(VP_ERROR_OK(ok, err), "an unexpected end is reported as an error");
        if (ok) VP_REACH("clean end"); else VP_REACH("unexpected end");
#endif
    }
#else
    {
        /* a stream of small packets, cut anywhere */
        int calls = 0; gsize fed = 0; gboolean ok = TRUE;
        gsize max = 4 + vp_below("max", 28), i;
        S = malloc(max + 64);
        vp_instance_init(milter_decoder_get_type(), &obj);
        for (i = 0; i < max; i++) S[i] = (char)vp_u8("S");
        if (vp_bool("hostile")) ;
        else for (i = 0; i + 5 <= max; ) {      /* sensible lengths */
            guint32 n = 1 + vp_below("n", 6);
            S[i] = S[i + 1] = S[i + 2] = 0; S[i + 3] = (char)n;
            i += 4 + n;
        }
        while (fed < max) {
            gsize size = 1 + vp_below("size", 8);
            char *chunk;
            if (size > max - fed) size = max - fed;
            chunk = malloc(size); memcpy(chunk, S + fed, size);
            total = fed + size;
            err = NULL;
            ok = milter_decoder_decode(&obj, chunk, size, &err);
            free(chunk);
            fed = total;
            if (!rejected && total - pos >= 4 && (gint32)be32(S + pos) < 1) rejected = 1;
            VP_ASSERT(!!ok == !rejected, "result tells whether a packet was rejected");
            VP_ASSERT(VP_ERROR_OK(ok, err), "a rejected packet is reported as an error");
            VP_ASSERT(rejected || total - pos < 4 || total - pos - 4 < be32(S + pos), "every complete packet is delivered");
            if (rejected) break;
        }
#ifdef CASE_after_error
        if (rejected) {
            int n = n_emitted;
            ok = milter_decoder_decode(&obj, "\0\0\0\1A", 5, NULL);
            VP_ASSERT(!ok && n == n_emitted, "nothing is delivered after a rejected packet");
        }
#else
        if (!rejected) {
            ok = milter_decoder_end_decode(&obj, &err);
            VP_ASSERT(!!ok == (total == pos), "the stream may end between packets only");
            VP_ASSERT(VP_ERROR_OK(ok, err), "an unexpected end is reported as an error");
        }
#endif
    }
#endif
#else
    /* the helpers: a packet of N bytes, followed by a NUL (GString) */
    {
        gint N, r; char *P;
#ifdef VP_A
        N = (gint)nondet_vp_u32(); vp_assume(N >= 0 && (guint)N <= VP_AMAX);
        P = vp_block("P", (gsize)N + 1); vp_assume(P[N] == '\0');
#else
        gint i;
        N = vp_below("N", 16);
        P = malloc(N + 1);
        for (i = 0; i < N; i++) P[i] = (char)vp_u8("P");
        P[N] = 0;
#endif
#if defined(CASE_null_terminated)
        r = milter_decoder_decode_null_terminated_value(P, N, &err, "message");
        VP_ASSERT(r == vp_first_nul(P, N), "the first NUL byte of the range is found");
        VP_ASSERT((r < 0) == (err != NULL), "a missing NUL is an error");
        if (r >= 0) VP_REACH("found"); else VP_REACH("missing");
#elif defined(CASE_check_length)
        gint expected = (gint)vp_u32("expected"); int how = vp_bool("how"); gboolean ok;
        vp_assume(expected >= 0 && (guint)expected <= VP_AMAX);
        ok = milter_decoder_check_command_length(P, N, expected, how ? MILTER_DECODER_COMPARE_AT_LEAST : MILTER_DECODER_COMPARE_EXACT, &err, "target");
        VP_ASSERT(!!ok == (how ? N >= expected : N == expected), "length check result");
        VP_ASSERT(VP_ERROR_OK(ok, err), "a wrong length is an error");
        if (ok) VP_REACH("right"); else VP_REACH("wrong");
#elif defined(CASE_header_content)
        const gchar *name = NULL, *value = NULL; gssize n, v = -1; gboolean ok;
        n = vp_first_nul(P, N);
        if (n > 0) v = vp_first_nul(P + n + 1, N - n - 1);
        ok = milter_decoder_decode_header_content(P, N, &name, &value, &err);
        VP_ASSERT(!!ok == (n > 0 && v >= 0), "a header needs a terminated, non-empty name and a terminated value");
        VP_ASSERT(VP_IMPLIES(ok, name == P && value == P + n + 1 && err == NULL), "name and value of the header");
        if (ok) VP_REACH("header"); else VP_REACH("malformed header");
#elif defined(CASE_negotiate)
        gint done = -1; MilterOption *o;
        vp_assume(N >= 1);
        o = milter_decoder_decode_negotiate(P, N, &done, &err);
        VP_ASSERT((o != NULL) == (N >= 13), "negotiation needs its three words");
        VP_ASSERT((o == NULL) == (err != NULL), "a short negotiation is an error");
        VP_ASSERT(done == (o ? 13 : 0), "consumed bytes");
        if (o) {
            VP_ASSERT(vp_opt.version == be32(P + 1) && vp_opt.action == be32(P + 5) && vp_opt.step == be32(P + 9), "version, actions and steps");
            VP_REACH("negotiated");
        } else VP_REACH("short");
#endif
    }
#endif
    return 0;
}
#ifdef CASE_after_error
#define VP_ALLOW_CRITICAL 1
#endif
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
