/* GObject environment model: type registration runs the real class
 * initialisers, signals are recorded by name, emissions go to vp_on_emit().
 * Used in all three modes (natively it stands in for libgobject). */
#include "vp.h"
#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "pointer-overflow"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "conversion"
#pragma CPROVER check disable "undefined-shift"
#pragma CPROVER check disable "div-by-zero"
#endif

#define VP_NTYPES 32
static struct {
    GType id; GType parent; gsize isize;
    void (*class_init)(gpointer); const gchar *name;
    GBaseInitFunc base_init; GInstanceInitFunc init;
} vp_types[VP_NTYPES];
static int vp_ntypes;
#define VP_TYPE_BASE ((GType)1 << 20)

static GType vp_register(GType parent, const gchar *name)
{
    GType id = VP_TYPE_BASE + (GType)(vp_ntypes << 4);
    VP_ASSERT(vp_ntypes < VP_NTYPES, "model: type table");
    vp_assume(vp_ntypes < VP_NTYPES);
    vp_types[vp_ntypes].id = id; vp_types[vp_ntypes].parent = parent;
    vp_types[vp_ntypes].name = name;
    vp_ntypes++;
    return id;
}
/* types defined outside the files under contract */
GType vp_extern_type(GType base, int i) { return vp_register(base, "extern"); }
GType g_type_register_static_simple(GType parent, const gchar *name,
                                    guint class_size, GClassInitFunc class_init,
                                    guint instance_size, GInstanceInitFunc init,
                                    GTypeFlags flags)
{
    GType id = vp_register(parent, name);
    vp_types[vp_ntypes - 1].class_init = (void (*)(gpointer))class_init;
    vp_types[vp_ntypes - 1].isize = instance_size;
    vp_types[vp_ntypes - 1].init = init;
    return id;
}
GType g_type_register_static(GType parent, const gchar *name,
                             const GTypeInfo *info, GTypeFlags flags)
{
    GType id = vp_register(parent, name);
    vp_types[vp_ntypes - 1].base_init = info->base_init;
    return id;
}
GType g_boxed_type_register_static(const gchar *name, GBoxedCopyFunc c, GBoxedFreeFunc f)
{ return vp_register(G_TYPE_BOXED, name); }
GType g_flags_register_static(const gchar *name, const GFlagsValue *v)
{ return vp_register(G_TYPE_FLAGS, name); }
GType g_enum_register_static(const gchar *name, const GEnumValue *v)
{ return vp_register(G_TYPE_ENUM, name); }
gboolean (g_once_init_enter_pointer)(void *loc) { return *(gsize *)loc == 0; }
void (g_once_init_leave_pointer)(void *loc, gpointer v) { *(gsize *)loc = (gsize)v; }
gboolean (g_once_init_enter)(volatile void *loc) { return *(gsize *)loc == 0; }
void (g_once_init_leave)(volatile void *loc, gsize v) { *(gsize *)loc = v; }
const gchar *g_intern_static_string(const gchar *s) { return s; }
void g_type_add_interface_static(GType t, GType it, const GInterfaceInfo *info)
{
    int i;
    /* the interface registers its signals when it is first initialised */
    for (i = 0; i < vp_ntypes; i++)
        if (vp_types[i].id == it && vp_types[i].base_init) {
            static struct { GTypeInterface base; gpointer slots[64]; } iface;
            iface.base.g_type = it;
            vp_types[i].base_init(&iface);
            vp_types[i].base_init = NULL;
        }
}
void g_type_interface_add_prerequisite(GType a, GType b) { }
void g_type_class_add_private(gpointer klass, gsize n) { }
void g_type_class_adjust_private_offset(gpointer klass, gint *off) { }
gpointer g_type_class_peek_parent(gpointer klass) { return NULL; }
gpointer g_type_interface_peek_parent(gpointer klass) { return NULL; }
const gchar *g_type_name(GType t) { return "type"; }
GType g_type_fundamental(GType t)
{
    int i, k;
    for (k = 0; k < 4; k++)
        for (i = 0; i < vp_ntypes; i++)
            if (vp_types[i].id == t) t = vp_types[i].parent;
    return t;
}
void vp_class_init(GType type, gpointer klass)
{
    int i;
    ((GTypeClass *)klass)->g_type = type;
    for (i = 0; i < vp_ntypes; i++)
        if (vp_types[i].id == type && vp_types[i].class_init)
            vp_types[i].class_init(klass);
}
/* run the real instance initialiser (private data already attached) */
void vp_instance_init(GType type, gpointer instance)
{
    int i;
    for (i = 0; i < vp_ntypes; i++)
        if (vp_types[i].id == type && vp_types[i].init)
            ((void (*)(gpointer))vp_types[i].init)(instance);
}
gboolean g_type_check_instance_is_a(GTypeInstance *i, GType t) { return i != NULL; }
gboolean g_type_check_instance_is_fundamentally_a(GTypeInstance *i, GType t) { return i != NULL; }
GTypeInstance *g_type_check_instance_cast(GTypeInstance *i, GType t) { return i; }
GTypeClass *g_type_check_class_cast(GTypeClass *c, GType t) { return c; }
gpointer g_type_interface_peek(gpointer klass, GType t) { return NULL; }

/* private data: the harness attaches typed storage */
#define VP_NPRIV 12
static struct { gpointer inst; GType type; gpointer priv; } vp_privs[VP_NPRIV];
static int vp_nprivs;
void vp_set_private(gpointer inst, GType type, gpointer priv)
{
    vp_privs[vp_nprivs].inst = inst; vp_privs[vp_nprivs].type = type;
    vp_privs[vp_nprivs].priv = priv; vp_nprivs++;
}
gpointer g_type_instance_get_private(GTypeInstance *inst, GType type)
{
    int i;
    for (i = 0; i < vp_nprivs; i++)
        if (vp_privs[i].inst == inst && vp_privs[i].type == type)
            return vp_privs[i].priv;
    VP_ASSERT(0, "model: private data of an unknown object");
    return NULL;
}

#ifndef VP_OWN_REFCOUNT
gpointer (g_object_ref)(gpointer o) { return o; }
void g_object_unref(gpointer o) { }
#endif
void g_object_notify(GObject *o, const gchar *n) { }

/* ------------------------------------------------------------------ */
#ifndef VP_NSIGS
#define VP_NSIGS 64
#endif
static VpSig vp_sigs[VP_NSIGS];
static int vp_nsigs;
guint g_signal_new(const gchar *name, GType itype, GSignalFlags flags,
                   guint offset, GSignalAccumulator acc, gpointer acc_data,
                   GSignalCMarshaller m, GType ret, guint n, ...)
{
    va_list ap; guint i;
    VpSig *s = &vp_sigs[vp_nsigs];
    VP_ASSERT(vp_nsigs < VP_NSIGS, "model: signal table");
    s->name = name; s->owner = itype; s->ret = ret; s->n = n;
    s->offset = offset; s->acc = acc;
    va_start(ap, n);
    for (i = 0; i < n; i++) s->types[i] = va_arg(ap, GType);
    va_end(ap);
    vp_nsigs++;
    return (guint)vp_nsigs;
}
int vp_name_is(const gchar *a, const gchar *b)
{
    gsize i = 0;
    for (;;) {
        gchar x = a[i] == '_' ? '-' : a[i], y = b[i] == '_' ? '-' : b[i];
        if (x != y) return 0;
        if (x == '\0') return 1;
        i++;
    }
}
int vp_is(const VpEmit *e, const gchar *name) { return vp_name_is(e->name, name); }

/* a string argument of a signal is copied up to its first NUL unless the
 * signal declares it of static scope */
#ifdef VP_N
#define VP_COPY_ARG(p) ((p) = g_strdup(p))
#else
#define VP_COPY_ARG(p)
#endif
#define VP_COLLECT(e, s, ap)                                            \
    do {                                                                \
        guint k_;                                                       \
        for (k_ = 0; k_ < (s)->n; k_++) {                               \
            GType t_ = g_type_fundamental((s)->types[k_] & ~G_SIGNAL_TYPE_STATIC_SCOPE); \
            switch (t_) {                                               \
            case G_TYPE_CHAR: case G_TYPE_UCHAR: case G_TYPE_BOOLEAN:   \
            case G_TYPE_INT: case G_TYPE_ENUM:                          \
                (e)->a[k_].u = (guint)va_arg(ap, gint); break;          \
            case G_TYPE_UINT: case G_TYPE_FLAGS:                        \
                (e)->a[k_].u = va_arg(ap, guint); break;                \
            case G_TYPE_LONG: case G_TYPE_ULONG:                        \
            case G_TYPE_INT64: case G_TYPE_UINT64:                      \
                (e)->a[k_].u = va_arg(ap, guint64); break;              \
            case G_TYPE_FLOAT: case G_TYPE_DOUBLE:                      \
                (e)->a[k_].d = va_arg(ap, gdouble); break;              \
            case G_TYPE_STRING:                                         \
                (e)->a[k_].p = va_arg(ap, gpointer);                    \
                if (!((s)->types[k_] & G_SIGNAL_TYPE_STATIC_SCOPE) && (e)->a[k_].p) { \
                    (e)->copied |= 1u << k_;                            \
                    VP_COPY_ARG((e)->a[k_].p);                          \
                }                                                       \
                break;                                                  \
            default:                                                    \
                (e)->a[k_].p = va_arg(ap, gpointer); break;             \
            }                                                           \
        }                                                               \
    } while (0)

#define VP_DELIVER(e, s, ap)                                            \
    do {                                                                \
        vp_on_emit(&(e));                                               \
        if ((s)->ret != G_TYPE_NONE) {                                  \
            gpointer loc_ = va_arg(ap, gpointer);                       \
            if (loc_ && (s)->ret == G_TYPE_BOOLEAN) *(gboolean *)loc_ = (gboolean)(e).ret; \
            else if (loc_ && g_type_fundamental((s)->ret) == G_TYPE_ENUM) *(gint *)loc_ = (gint)(e).ret; \
            else if (loc_ && ((s)->ret == G_TYPE_INT || (s)->ret == G_TYPE_UINT)) *(guint *)loc_ = (guint)(e).ret; \
            else if (loc_) *(gpointer *)loc_ = (gpointer)(gsize)(e).ret; \
        }                                                               \
    } while (0)

void g_signal_emit(gpointer instance, guint id, GQuark detail, ...)
{
    va_list ap; VpEmit e; const VpSig *s;
    VP_ASSERT(id >= 1 && id <= (guint)vp_nsigs, "signal id registered by the class initialiser");
    vp_assume(id >= 1 && id <= (guint)vp_nsigs);
    s = &vp_sigs[id - 1];
    memset(&e, 0, sizeof e);
    e.instance = instance; e.sig = s; e.name = s->name; e.ret = 0;
    va_start(ap, detail);
    VP_COLLECT(&e, s, ap);
    VP_DELIVER(e, s, ap);
    va_end(ap);
}
/* harnesses whose code emits signals of classes defined elsewhere declare
 * them with vp_declare_signal() */
int vp_declare_signal(const gchar *name, GType ret, guint n, ...)
{
    va_list ap; guint i;
    VpSig *s = &vp_sigs[vp_nsigs];
    VP_ASSERT(vp_nsigs < VP_NSIGS, "model: signal table");
    s->name = name; s->ret = ret; s->n = n; s->owner = 0;
    va_start(ap, n);
    for (i = 0; i < n; i++) s->types[i] = va_arg(ap, GType);
    va_end(ap);
    return ++vp_nsigs;
}
#ifndef VP_OWN_EMIT_BY_NAME
void g_signal_emit_by_name(gpointer instance, const gchar *name, ...)
{
    va_list ap; VpEmit e; const VpSig *s = NULL; int i;
    for (i = 0; i < vp_nsigs; i++)
        if (s == NULL && vp_name_is(vp_sigs[i].name, name)) s = &vp_sigs[i];
    VP_ASSERT(s != NULL, "emitted signal exists");
    vp_assume(s != NULL);
    memset(&e, 0, sizeof e);
    e.instance = instance; e.sig = s; e.name = s->name; e.ret = 0;
    va_start(ap, name);
    VP_COLLECT(&e, s, ap);
    VP_DELIVER(e, s, ap);
    va_end(ap);
}
#endif

#ifdef VP_CBMC
#pragma CPROVER check pop
#endif
