/* Harness API shared by the contract harnesses.
 *
 * A harness is compiled three ways from one source:
 *   VP_A  CBMC, data of unbounded size (witness/view models), loop contracts
 *   VP_B  CBMC, same contract, inputs and loops bounded (bound is reported)
 *   VP_N  native gcc + ASan/UBSan with the real GLib; nondeterministic values
 *         come from a CBMC counterexample (replay) or a seeded PRNG
 */
#ifndef VP_H
#define VP_H

#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include <glib.h>
#include <glib-object.h>

#if defined(VP_A) || defined(VP_B)
#  define VP_CBMC 1
#endif

#ifdef VP_CBMC
#  define VP_STR2(x) #x
/* a named obligation */
#  define VP_ASSERT(cond, name) __CPROVER_assert((cond), "VP " name)
/* vacuity guard: this point must be reachable (the assertion must FAIL) */
#  define VP_REACH(name) __CPROVER_assert(0, "REACH " name)
#  define vp_assume(c) __CPROVER_assume(c)
#  define VP_INPUT(tag, v) __CPROVER_input(tag, v)
guint64 nondet_vp_u64(void);
guint32 nondet_vp_u32(void);
guint16 nondet_vp_u16(void);
guint8 nondet_vp_u8(void);
gdouble nondet_vp_double(void);
#  define VP_DEF(T, N)                                  \
static inline T vp_##N(const char *tag)                 \
{ T v = nondet_vp_##N(); __CPROVER_input("vp_" #N, v); return v; }
VP_DEF(guint64, u64)
VP_DEF(guint32, u32)
VP_DEF(guint16, u16)
VP_DEF(guint8, u8)
VP_DEF(gdouble, double)
#else
void vp_native_assert(int cond, const char *name, const char *file, int line);
void vp_native_reach(const char *name);
void vp_native_assume(int cond, const char *text);
guint64 vp_native_next(const char *kind, int bits);
#  define VP_ASSERT(cond, name) vp_native_assert(!!(cond), name, __FILE__, __LINE__)
#  define VP_REACH(name) vp_native_reach(name)
#  define vp_assume(c) vp_native_assume(!!(c), #c)
#  define vp_u64(tag) ((guint64)vp_native_next("vp_u64", 64))
#  define vp_u32(tag) ((guint32)vp_native_next("vp_u32", 32))
#  define vp_u16(tag) ((guint16)vp_native_next("vp_u16", 16))
#  define vp_u8(tag) ((guint8)vp_native_next("vp_u8", 8))
static inline gdouble vp_double(const char *tag)
{ union { guint64 u; gdouble d; } x; x.u = vp_native_next("vp_double", 64); return x.d; }
#endif

#ifdef VP_N
guint64 vp_native_range(const char *kind, int bits, guint64 n);
#  define vp_bool(tag) ((int)vp_native_range("vp_u8", 8, 2))
#  define vp_below(tag, n) ((guint32)vp_native_range("vp_u32", 32, (n)))
/* like vp_u8, never 0 */
guint8 vp_native_nonzero(void);
#  define vp_u8nz(tag) vp_native_nonzero()
#else
static inline guint8 vp_u8nz(const char *tag)
{ guint8 v = vp_u8(tag); vp_assume(v != 0); return v; }
static inline int vp_bool(const char *tag)
{ guint8 v = vp_u8(tag); vp_assume(v < 2); return v; }
static inline guint32 vp_below(const char *tag, guint32 n)
{ guint32 v = vp_u32(tag); vp_assume(v < n); return v; }
#endif

/* choose the ghost witness index */
void vp_witness(void);

#define VP_IMPLIES(a, b) (!(a) || (b))

/* ------------------------------------------------------------------ */
/* symbolic input data */
#ifndef VP_STRMAX
#  define VP_STRMAX 3           /* B/N: longest symbolic C string */
#endif
#define VP_AMAX (1u << 28)      /* A: sizes range over [0, 2^28] */

/* a NUL-terminated string of any length (A) / of length <= VP_STRMAX (B) */
char *vp_cstr(const char *tag);
/* a NUL-terminated string whose length is fixed by the caller */
char *vp_cstr_n(const char *tag, gsize n);
/* length of a vp_cstr (the contract of strlen) */
gsize vp_len(const char *s);
/* a block of n arbitrary bytes */
char *vp_block(const char *tag, gsize n);
/* index of the first NUL of p[0..n), or -1 */
gssize vp_first_nul(const char *p, gssize n);
#ifdef VP_CBMC
/* the models' hash table, entry i in insertion order (CBMC modes only) */
const char *vp_ht_key(GHashTable *t, guint i);
const char *vp_ht_value(GHashTable *t, guint i);
#endif
#ifdef VP_A
/* s is a fresh copy of the n bytes at p */
int vp_is_copy(const char *s, const char *p, gsize n);
/* from here on only the block from offset off is scanned for NULs */
void vp_retrack(gsize off);
void vp_scan_from(gsize off);
#endif
/* spec equality of two C strings at the witness */
int vp_streq(const char *a, const char *b);
/* the ghost witness: one fixed arbitrary index */
extern gsize vp_W;

/* ------------------------------------------------------------------ */
/* ghost view of a byte string under construction (packets, buffers) */
typedef struct {
    gsize len;                  /* spec length */
    gsize w;                    /* tracked index */
    int   wb;                   /* byte at w if w < len, else -1 */
} VpSpec;
void vp_spec_init(VpSpec *s);
void vp_spec_bytes(VpSpec *s, const char *p, gsize n);
void vp_spec_byte(VpSpec *s, guint8 c);
void vp_spec_be32(VpSpec *s, guint32 v);
void vp_spec_str(VpSpec *s, const char *p);     /* without NUL */
void vp_spec_strz(VpSpec *s, const char *p);    /* with NUL */
/* the byte at index i of a buffer the code under contract produced */
int vp_gs_byte(const char *data, gsize i);

/* ------------------------------------------------------------------ */
/* signals, classes, objects (GObject environment model) */
#define VP_SIG_ARGS 8
typedef struct {
    const gchar *name;
    GType owner;
    GType ret;
    guint n;
    GType types[VP_SIG_ARGS];
    guint offset;
    GSignalAccumulator acc;
} VpSig;
typedef union { gpointer p; guint64 u; gint64 i; gdouble d; } VpVal;
typedef struct {
    gpointer instance;
    const VpSig *sig;
    const gchar *name;
    VpVal a[VP_SIG_ARGS];
    guint copied;               /* bit k: argument k is cut at its first NUL */
    guint64 ret;                /* what the handler returns */
} VpEmit;
/* argument k reaches the handlers as the bytes given, not as a C string */
#ifdef VP_N
#define VP_UNCUT(e, k) 1        /* the copy is made: reading beyond it is caught */
#else
#define VP_UNCUT(e, k) (!((e)->copied & (1u << (k))))
#endif
/* the harness observes every emission here, while the arguments live */
void vp_on_emit(VpEmit *e);
int vp_is(const VpEmit *e, const gchar *name);
int vp_name_is(const gchar *a, const gchar *b);
int vp_declare_signal(const gchar *name, GType ret, guint n, ...);
void vp_class_init(GType type, gpointer klass);
void vp_instance_init(GType type, gpointer instance);
void vp_set_private(gpointer instance, GType type, gpointer priv);
void vp_free_object(gpointer object);       /* harness: called when a ref count drops */

/* did the code under contract report an error properly? */
#define VP_ERROR_OK(ok, err) (!!(ok) == ((err) == NULL))
GError *vp_error(const char *tag);

/* messages are opaque */
char *vp_opaque(void);

int vp_main(void);
#endif
