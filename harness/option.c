/* The contract of MilterOption (milter-option.c): what several sides offer or
 * want is combined bit by bit; the bits are those of the milter protocol. */
#include "vp.h"
#include "milter/core/milter-option.c"

/* the bits of the milter protocol */
#define NO_EVENT 0x0000037fu            /* SMFIP_NOCONNECT ... NODATA */
#define NO_REPLY 0x000ff080u            /* SMFIP_NR_* */
#define YES 0x00100c00u                 /* SMFIP_SKIP, RCPT_REJ, HDR_LEADSPC */
#define ALL_STEPS (NO_EVENT | NO_REPLY | YES)

static struct { GObject o[2]; } a_, b_, n_;
#define A ((MilterOption *)&a_)
#define B ((MilterOption *)&b_)
#define N ((MilterOption *)&n_)
static MilterOptionPrivate ap_, bp_, np_;
static MilterOptionClass klass_;
typedef struct { guint32 version, action, step; } Option;
static Option option_of(MilterOption *o)
{
    Option r; r.version = milter_option_get_version(o); r.action = milter_option_get_action(o); r.step = milter_option_get_step(o);
    return r;
}
static int same(Option x, Option y) { return x.version == y.version && x.action == y.action && x.step == y.step; }

/* properties: by name */
static struct { const gchar *name; guint id; } props_[8]; static guint n_props; static const gchar *spec_name;
static GParamSpec spec_;
GParamSpec *g_param_spec_uint(const gchar *n, const gchar *a, const gchar *b, guint lo, guint hi, guint d, GParamFlags f)
{ VP_ASSERT(lo == 0 && hi == G_MAXUINT32 && (f & G_PARAM_WRITABLE) && (f & G_PARAM_READABLE), "any value can be set"); spec_name = n; return &spec_; }
GParamSpec *g_param_spec_flags(const gchar *n, const gchar *a, const gchar *b, GType t, guint d, GParamFlags f)
{ VP_ASSERT((f & G_PARAM_WRITABLE) && (f & G_PARAM_READABLE), "any value can be set"); spec_name = n; return &spec_; }
void g_object_class_install_property(GObjectClass *c, guint id, GParamSpec *s)
{ vp_assume(n_props < 8); props_[n_props].name = spec_name; props_[n_props++].id = id; }
GType milter_action_flags_get_type(void) { return 48; }
GType milter_step_flags_get_type(void) { return 52; }
gchar *milter_utils_get_flags_names(GType t, guint v) { return g_strdup("flags"); }
guint g_value_get_uint(const GValue *v) { return v->data[0].v_uint; }
guint g_value_get_flags(const GValue *v) { return v->data[0].v_uint; }
guint64 g_value_get_uint64(const GValue *v) { return v->data[0].v_uint; }
void g_value_set_uint(GValue *v, guint x) { v->data[0].v_uint = x; }
void g_value_set_flags(GValue *v, guint x) { v->data[0].v_uint = x; }
static guint prop_id(const gchar *name)
{
    guint i, id = 0;
    for (i = 0; i < 3; i++) if (i < n_props && vp_name_is(props_[i].name, name)) id = props_[i].id;
    VP_ASSERT(id != 0, "the property exists");
    return id;
}
static int n_new;
gpointer g_object_new(GType type, const gchar *first, ...)
{
    va_list ap; const gchar *name = first; int i; GValue v = {0};
    VP_ASSERT(type == MILTER_TYPE_OPTION && n_new == 0, "one new option");
    n_new++;
    vp_instance_init(type, N);
    va_start(ap, first);
    for (i = 0; i < 4 && name; i++) {
        v.data[0].v_uint = va_arg(ap, guint);
        set_property((GObject *)N, prop_id(name), &v, &spec_);
        name = va_arg(ap, const gchar *);
    }
    VP_ASSERT(name == NULL, "no property is given twice");
    va_end(ap);
    return N;
}

int vp_main(void)
{
    Option a, b, r, w;
    vp_witness();
    vp_set_private(A, MILTER_TYPE_OPTION, &ap_); vp_set_private(B, MILTER_TYPE_OPTION, &bp_); vp_set_private(N, MILTER_TYPE_OPTION, &np_);
    vp_class_init(MILTER_TYPE_OPTION, &klass_);
    vp_instance_init(MILTER_TYPE_OPTION, A);
    a = option_of(A);
    VP_ASSERT(a.version == 6 && a.action == 0 && a.step == 0, "an option starts with protocol version 6 and nothing");
    vp_instance_init(MILTER_TYPE_OPTION, B);
    a.version = vp_u32("version"); a.action = vp_u32("action"); a.step = vp_u32("step");
    b.version = vp_u32("version"); b.action = vp_u32("action"); b.step = vp_u32("step");
    milter_option_set_version(A, a.version); milter_option_set_action(A, a.action); milter_option_set_step(A, a.step);
    milter_option_set_version(B, b.version); milter_option_set_action(B, b.action); milter_option_set_step(B, b.step);
    VP_ASSERT(same(option_of(A), a) && same(option_of(B), b), "an option is what it was set to");
#if defined(CASE_combine)
    w = a;
    if (a.version >= b.version) { w.version = b.version; w.action = a.action & b.action; w.step = a.step & b.step; VP_REACH("combined"); }
    VP_ASSERT(!!milter_option_combine(A, B) == (a.version >= b.version), "a newer version than is offered is refused");
    VP_ASSERT(same(option_of(A), w), "what both sides have, in the version of the second one");
    VP_ASSERT(same(option_of(B), b), "the other option stays");
#elif defined(CASE_merge)
    w = a;
    if (a.version >= b.version) {
        w.action = a.action | b.action;
        w.step = (a.step & b.step & (NO_EVENT | NO_REPLY)) | ((a.step | b.step) & YES);
        VP_REACH("merged");
    }
    VP_ASSERT(!!milter_option_merge(A, B) == (a.version >= b.version), "a newer version than is offered is refused");
    VP_ASSERT(same(option_of(A), w), "an event or reply is left out only if both leave it out, anything else is wanted if one wants it");
    VP_ASSERT(same(option_of(B), b), "the other option stays");
    VP_ASSERT((guint32)milter_step_flags_merge(a.step, b.step) == ((a.step & b.step & (NO_EVENT | NO_REPLY)) | ((a.step | b.step) & YES)), "steps are merged bit by bit");
#elif defined(CASE_flags)
    VP_ASSERT((guint32)milter_option_get_step_no_event(A) == (a.step & NO_EVENT), "the events left out");
    VP_ASSERT((guint32)milter_option_get_step_no_reply(A) == (a.step & NO_REPLY), "the replies left out");
    VP_ASSERT((guint32)milter_option_get_step_no(A) == (a.step & (NO_EVENT | NO_REPLY)), "what is left out");
    VP_ASSERT((guint32)milter_option_get_step_yes(A) == (a.step & YES), "what is wanted");
    w = a;
    milter_option_add_action(A, b.action); w.action |= b.action; VP_ASSERT(same(option_of(A), w), "actions are added");
    milter_option_add_step(A, b.step); w.step |= b.step; VP_ASSERT(same(option_of(A), w), "steps are added");
    a.action = vp_u32("less"); a.step = vp_u32("less");
    milter_option_remove_action(A, a.action); w.action &= ~a.action; VP_ASSERT(same(option_of(A), w), "actions are removed");
    milter_option_remove_step(A, a.step); w.step &= ~a.step; VP_ASSERT(same(option_of(A), w), "steps are removed");
    VP_ASSERT(same(option_of(B), b), "the other option stays");
    VP_ASSERT(!!milter_option_equal(A, B) == same(w, b), "options are equal if all of them is");
    if (same(w, b)) VP_REACH("equal");
    VP_ASSERT(MILTER_STEP_SKIP == 0x400 && MILTER_STEP_ENVELOPE_RECIPIENT_REJECTED == 0x800 && MILTER_STEP_HEADER_VALUE_WITH_LEADING_SPACE == 0x100000 &&
              MILTER_STEP_NO_CONNECT == 1 && MILTER_STEP_NO_HELO == 2 && MILTER_STEP_NO_ENVELOPE_FROM == 4 && MILTER_STEP_NO_ENVELOPE_RECIPIENT == 8 &&
              MILTER_STEP_NO_BODY == 16 && MILTER_STEP_NO_HEADERS == 32 && MILTER_STEP_NO_END_OF_HEADER == 64 && MILTER_STEP_NO_REPLY_HEADER == 128 &&
              MILTER_STEP_NO_UNKNOWN == 0x100 && MILTER_STEP_NO_DATA == 0x200 && MILTER_STEP_NO_REPLY_CONNECT == 0x1000 && MILTER_STEP_NO_REPLY_HELO == 0x2000 &&
              MILTER_STEP_NO_REPLY_ENVELOPE_FROM == 0x4000 && MILTER_STEP_NO_REPLY_ENVELOPE_RECIPIENT == 0x8000 && MILTER_STEP_NO_REPLY_DATA == 0x10000 &&
              MILTER_STEP_NO_REPLY_UNKNOWN == 0x20000 && MILTER_STEP_NO_REPLY_END_OF_HEADER == 0x40000 && MILTER_STEP_NO_REPLY_BODY == 0x80000, "the bits of the protocol");
    VP_ASSERT(MILTER_ACTION_ADD_HEADERS == 1 && MILTER_ACTION_CHANGE_BODY == 2 && MILTER_ACTION_ADD_ENVELOPE_RECIPIENT == 4 && MILTER_ACTION_DELETE_ENVELOPE_RECIPIENT == 8 &&
              MILTER_ACTION_CHANGE_HEADERS == 16 && MILTER_ACTION_QUARANTINE == 32 && MILTER_ACTION_CHANGE_ENVELOPE_FROM == 64 &&
              MILTER_ACTION_ADD_ENVELOPE_RECIPIENT_WITH_PARAMETERS == 128 && MILTER_ACTION_SET_SYMBOL_LIST == 256, "the bits of the protocol");
#else
    {
        MilterOption *n; GValue v = {0};
        if (vp_bool("copy")) { n = milter_option_copy(A); w = a; VP_REACH("copy"); }
        else if (vp_bool("new")) { n = milter_option_new(b.version, b.action, b.step); w = b; VP_REACH("new"); }
        else { n = milter_option_new_empty(); w.version = 6; w.action = w.step = 0; VP_REACH("empty"); }
        VP_ASSERT(n == N && same(option_of(N), w), "a new option is what it is made from");
        get_property((GObject *)A, prop_id("version"), &v, &spec_); VP_ASSERT(v.data[0].v_uint == a.version, "the version");
        get_property((GObject *)A, prop_id("action"), &v, &spec_); VP_ASSERT(v.data[0].v_uint == a.action, "the actions");
        get_property((GObject *)A, prop_id("step"), &v, &spec_); VP_ASSERT(v.data[0].v_uint == a.step, "the steps");
        milter_option_add_step(N, b.action); milter_option_remove_action(N, b.step); milter_option_set_version(N, b.step);
        VP_ASSERT(same(option_of(A), a) && same(option_of(B), b), "an option of its own");
    }
#endif
    (void)r;
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
