/* Shared part of the decoder harnesses: one packet of arbitrary size is put in
 * front of a decoder class' decode() implementation.
 *
 *  A    the packet has any length; the decoder base class (milter-decoder.c)
 *       is represented by the contracts below, which the "decoder_base"
 *       harness proves for the real functions
 *  B/N  the packet goes through the real milter_decoder_decode()
 */
#include "vp.h"
#ifdef VP_A
#include "milter-decoder.h"
#else
#include "milter/core/milter-decoder.c"
static MilterDecoderPrivate vp_dec_priv;
#endif

static char *P;                 /* the packet, exactly N bytes */
static gsize N;
static int n_emitted;
static GError *err;
static gboolean ok;

/* ghost option made by the negotiate decoder */
static struct { GObject o; guint32 version, action, step; int live; } vp_opt;
MilterOption *milter_option_new(guint32 v, MilterActionFlags a, MilterStepFlags s)
{
    vp_opt.version = v; vp_opt.action = a; vp_opt.step = s; vp_opt.live = 1;
    return (MilterOption *)&vp_opt;
}
static guint32 be32(const char *p)
{ return ((guint32)(guint8)p[0] << 24) | ((guint32)(guint8)p[1] << 16) | ((guint32)(guint8)p[2] << 8) | (guint8)p[3]; }

/* the argument is the C string starting at packet offset off */
static int is_text(const void *p, gsize off) { return vp_streq(p, P + off); }
static void vp_emitted(VpEmit *e);

#ifdef VP_A
/* ---- contracts of the base class, proved in harness decoder_base ---- */
const gchar *milter_decoder_get_buffer(MilterDecoder *d) { return P; }
gint32 milter_decoder_get_command_length(MilterDecoder *d) { return (gint32)N; }
guint milter_decoder_get_tag(MilterDecoder *d) { return 0; }
GQuark milter_decoder_error_quark(void) { return 77; }
GType milter_decoder_get_type(void)
{ static GType t; if (!t) t = vp_extern_type(G_TYPE_OBJECT, 0); return t; }
#define VP_INSIDE(p, n, what)                                           \
    VP_ASSERT((n) <= 0 || (__CPROVER_same_object(p, P) &&               \
                           __CPROVER_POINTER_OFFSET(p) + (gsize)(n) <= N), \
              what " lies within the packet")
gboolean milter_decoder_check_command_length(const gchar *b, gint length, gint expected,
                                             MilterDecoderCompareType how, GError **error, const gchar *target)
{
    VP_ASSERT(length >= 0, "checked length is not negative");
    VP_INSIDE(b, length, "the checked range");
    if (how == MILTER_DECODER_COMPARE_AT_LEAST ? length >= expected : length == expected)
        return TRUE;
    g_set_error(error, 77, 0, "length");
    return FALSE;
}
gint milter_decoder_decode_null_terminated_value(const gchar *b, gint length, GError **error, const gchar *m)
{
    gint r;
    VP_ASSERT(length >= 0, "scanned length is not negative");
    VP_INSIDE(b, length, "the scanned range");
    r = (gint)vp_first_nul(b, length);
    if (r < 0) g_set_error(error, 77, MILTER_DECODER_ERROR_MISSING_NULL, "nul");
    return r;
}
gboolean milter_decoder_decode_header_content(const gchar *b, gint length, const gchar **name,
                                              const gchar **value, GError **error)
{
    gssize r;
    VP_ASSERT(length >= 0, "scanned length is not negative");
    VP_INSIDE(b, length, "the scanned range");
    r = vp_first_nul(b, length);
    if (r <= 0) { if (r < 0) g_set_error(error, 77, 0, "name"); return FALSE; }
    *name = b;
    if (vp_first_nul(b + r + 1, length - r - 1) < 0) { g_set_error(error, 77, 0, "value"); return FALSE; }
    *value = b + r + 1;
    return TRUE;
}
MilterOption *milter_decoder_decode_negotiate(const gchar *b, gint length, gint *done, GError **error)
{
    VP_ASSERT(length >= 1, "a negotiation packet has its command byte");
    VP_INSIDE(b, length, "the decoded range");
    *done = 0;
    if (length < 13) { g_set_error(error, 77, 0, "negotiate"); return NULL; }
    *done = 13;
    return milter_option_new(be32(b + 1), be32(b + 5), be32(b + 9));
}
#else
static MilterDecoderClass *vp_klass;
#endif

#ifdef VP_A
void vp_on_emit(VpEmit *e) { vp_emitted(e); }
#else
void vp_on_emit(VpEmit *e)
{
    if (e->sig->n == 1 && vp_is(e, "decode")) {
        /* the base class dispatches to the virtual method; the packet it
         * presents is the one that was sent */
        const char *b = milter_decoder_get_buffer(e->instance);
        gsize i;
        VP_ASSERT(milter_decoder_get_command_length(e->instance) == (gint32)N, "packet length presented to the decoder");
        for (i = 0; i < N; i++)
            VP_ASSERT(b[i] == P[i], "packet bytes presented to the decoder");
        e->ret = vp_klass->decode(e->instance, e->a[0].p);
    } else
        vp_emitted(e);
}
#endif

/* run one packet */
static void vp_decode_run(MilterDecoder *d, MilterDecoderClass *klass)
{
#ifdef VP_A
    ok = klass->decode(d, &err);
#else
    char *w; gsize i;
    vp_klass = klass;
    vp_set_private(d, milter_decoder_get_type(), &vp_dec_priv);
    vp_instance_init(milter_decoder_get_type(), d);
    w = malloc(N + 4);
    w[0] = 0; w[1] = 0; w[2] = 0; w[3] = (char)N;
    for (i = 0; i < N; i++) w[4 + i] = P[i];
    ok = milter_decoder_decode(d, w, N + 4, &err);
#endif
}
/* the packet: any length >= 1 (A), 1..PMAX (B/N) */
#ifndef PMAX
#define PMAX 6
#endif
#ifndef PMIN
#define PMIN 1
#endif
#ifdef VP_A
#define VP_PUT(i, c) vp_assume(P[i] == (c))
#else
#define VP_PUT(i, c) (P[i] = (c))
#endif
static void vp_packet(void)
{
#ifdef VP_A
    N = nondet_vp_u64();
    vp_assume(N >= 1 && N <= VP_AMAX);
    P = vp_block("packet", N);
#elif defined(PN)
    N = PN;
    P = vp_block("packet", N);
#else
    N = PMIN + vp_below("N", PMAX - PMIN + 1);
    P = vp_block("packet", PMAX);
#endif
}
