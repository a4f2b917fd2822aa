/* CUT: milter/core/milter-reader.c read_watch_func 0 */
/* CUT: milter/core/milter-reader.c error_watch_func 0 */
/* The contract of MilterReader: what comes in is handed on as it comes, whole,
 * once and in order, up to the end of the connection, an error or a shutdown;
 * then that it has finished is told once, nothing is handed on any more and
 * nothing of a reader dropped by its owner is used.
 *
 * The channel gives any number of pieces of any size it is asked for. */
#include "vp.h"
#define VP_OWN_REFCOUNT 1
static GIOStatus my_read(GIOChannel *c, gchar *buf, gsize count, gsize *read, GError **error);
static gboolean my_buffered(GIOChannel *c);
static GIOCondition my_condition(GIOChannel *c);
static void my_channel_unref(GIOChannel *c);
#define g_io_channel_read_chars my_read
#define g_io_channel_get_buffered my_buffered
#define g_io_channel_get_buffer_condition my_condition
#define g_io_channel_unref my_channel_unref
#include "milter/core/milter-reader.c"

GType milter_error_emittable_get_type(void) { return 80; }
GType milter_finished_emittable_get_type(void) { return 84; }
GParamSpec *g_param_spec_pointer(const gchar *n, const gchar *a, const gchar *b, GParamFlags f) { return NULL; }
GParamSpec *g_param_spec_uint(const gchar *n, const gchar *a, const gchar *b, guint l, guint h, guint d, GParamFlags f) { return NULL; }
void g_object_class_install_property(GObjectClass *c, guint id, GParamSpec *s) { }
gpointer g_object_new(GType t, const gchar *f, ...) { return NULL; }

static struct { GObject o[8]; } obj_;
#define R ((MilterReader *)&obj_)
static MilterReaderPrivate *p_;
static MilterReaderClass klass_;
static gchar channel_, loop_, loop2_;
#define CH ((GIOChannel *)&channel_)
#define LOOP ((MilterEventLoop *)&loop_)
#define LOOP2 ((MilterEventLoop *)&loop2_)
#define RID 11
#define EID 13
static int refs_ = 1, gone_, loop_refs, n_unref;
static int n_watch, removed_r, removed_e, removed_new, n_err, n_fin, n_flow, n_read;
static struct { gpointer func; GIOCondition cond; MilterEventLoop *loop; guint id; } watch_[2];
static guint new_id[2];
static GError err_store, sub_store;
static int pending_, eof_, read_err, empty_, shut_; /* read but not handed on; the end was read; ... */
static gchar *at_; static gsize size_, k_; static gchar byte_;
static int act_flow, act_fin, act_err, in_callback;
static int more_;               /* N: how many pieces are left */

gpointer (g_object_ref)(gpointer o)
{ if (o == &obj_) { VP_ASSERT(!gone_, "a reader that is gone is not used"); refs_++; } else loop_refs++; return o; }
void g_object_unref(gpointer o)
{
    if (o != &obj_) { loop_refs--; return; }
    VP_ASSERT(!gone_ && refs_ > 0, "a reader is released as often as it was taken");
    if (--refs_ == 0) { gone_ = 1; free(p_); }
}
static int dropped_;
static void owner(int what)
{
    if (dropped_) return;       /* a reader that was dropped is not the owner's to shut down */
    if (what == 1 || what == 3) {
        int before = n_fin;
        shut_ = 1;
        milter_reader_shutdown(R);
        if (in_callback) VP_ASSERT(n_fin == before, "the end is told when the reader is through");
    }
    if (what == 2 || what == 3) { dropped_ = 1; g_object_unref(R); }
}
void vp_on_emit(VpEmit *e)
{
    int what = act_flow;
    VP_ASSERT(vp_is(e, "flow"), "what was read is handed on");
    VP_ASSERT(pending_ && (gchar *)e->a[0].p == at_ && e->a[1].u == size_, "exactly what was read, once");
    VP_ASSERT(((gchar *)e->a[0].p)[k_] == byte_, "unchanged");
    VP_ASSERT(!shut_ && !n_fin, "nothing is handed on after a shutdown or the end");
    pending_ = 0; n_flow++;
#ifdef VP_A
    if (in_callback) act_flow = vp_below("next act", 4);
#else
    act_flow = 0;
#endif
    owner(what);
}
void milter_error_emittable_emit(MilterErrorEmittable *o, GError *error)
{
    int what = act_err;
    VP_ASSERT((gpointer)o == (gpointer)R && error != NULL, "the error is reported");
    VP_ASSERT(n_fin == 0, "before the end");
    n_err++; act_err = 0;
    owner(what);
}
void milter_finished_emittable_emit(MilterFinishedEmittable *o)
{
    int what = act_fin;
    VP_ASSERT((gpointer)o == (gpointer)R, "the reader has finished");
    VP_ASSERT(!pending_, "after everything was handed on");
    n_fin++; act_fin = 0;
    VP_ASSERT(p_->read_watch_id == 0 && p_->error_watch_id == 0 && p_->loop == NULL && loop_refs == 0, "nothing is awaited any more");
    owner(what);
}
void milter_utils_set_error_with_sub_error(GError **error, GQuark domain, gint code, GError *sub, const gchar *format, ...)
{
    VP_ASSERT(sub == &sub_store, "with its cause");
#ifdef VP_N
    *error = g_error_new_literal(1, 1, "e");
#else
    *error = &err_store;
#endif
}
gchar *milter_utils_inspect_io_condition_error(GIOCondition c) { return NULL; }
guint milter_event_loop_watch_io(MilterEventLoop *loop, GIOChannel *channel, GIOCondition condition, GIOFunc function, gpointer data)
{
    VP_ASSERT(loop != NULL && channel == CH && data == (gpointer)R && n_watch < 2, "the reader's channel is watched");
    if (n_watch >= 2) return 0;
    watch_[n_watch].func = (gpointer)function; watch_[n_watch].cond = condition; watch_[n_watch].loop = loop;
    return watch_[n_watch].id = new_id[n_watch], n_watch++, watch_[n_watch - 1].id;
}
gboolean milter_event_loop_remove(MilterEventLoop *loop, guint id)
{
    VP_ASSERT(id == RID || id == EID || id == 20, "a watch of this reader is removed");
    VP_ASSERT(loop == (id == 20 ? LOOP2 : LOOP), "from the loop it is in");
    if (id == RID) removed_r++;
    if (id == EID) removed_e++;
    if (id == 20) removed_new++;
    return TRUE;
}
static GIOStatus my_read(GIOChannel *c, gchar *buf, gsize count, gsize *read, GError **error)
{
    guint what;
    VP_ASSERT(c == CH && n_unref == 0, "read from the reader's channel");
    VP_ASSERT(!pending_, "what was read before has been handed on");
    VP_ASSERT(!eof_ && !read_err && !shut_ && !n_fin, "nothing is read after the end, an error or a shutdown");
#ifdef VP_A
    __CPROVER_assert(count > 0 && __CPROVER_w_ok(buf, count), "VP what is read fits into the buffer");
#endif
    n_read++;
    what = vp_below("read", 4);
#ifdef VP_N
    if (what == 3 && --more_ <= 0) what = 1;
#endif
    *read = 0;
    switch (what) {
    case 0: eof_ = 1; return G_IO_STATUS_EOF;
    case 1: empty_ = 1; return G_IO_STATUS_AGAIN;
    case 2: read_err = 1; *error = &sub_store; return G_IO_STATUS_ERROR;
    }
#ifdef VP_N
    size_ = 1 + vp_below("size", count); k_ = vp_below("k", size_);
#else
    size_ = vp_u64("size"); k_ = vp_u64("k");
    vp_assume(size_ >= 1 && size_ <= count && k_ < size_);
#endif
    byte_ = vp_u8("byte"); buf[k_] = byte_; at_ = buf;
    pending_ = 1; empty_ = 0;
    *read = size_;
    return G_IO_STATUS_NORMAL;
}
static gboolean my_buffered(GIOChannel *c) { VP_ASSERT(c == CH && n_unref == 0, "the reader's channel"); return vp_bool("buffered"); }
static GIOCondition my_condition(GIOChannel *c) { VP_ASSERT(c == CH && n_unref == 0, "the reader's channel"); return vp_u8("cond") & (G_IO_IN | G_IO_OUT); }
static void my_channel_unref(GIOChannel *c) { VP_ASSERT(c == CH, "the channel is released"); n_unref++; }

#ifdef VP_A
/* whether anything happened so far; what is left of it does not depend on how often */
static void any_progress(void)
{
    n_flow = vp_bool("some") ? 1 : 0; n_read = 1;
    pending_ = 0;
}
/* read_watch_func: everything read is handed on; going on is decided by the last piece */
void vp_cut_read(int *phase, gboolean *keep)
{
    int stop = eof_ || read_err || shut_;
    VP_ASSERT(!pending_ && n_fin == 0, "everything read so far has been handed on");
    VP_ASSERT(n_err == !!read_err, "an error is reported");
    VP_ASSERT(gone_ == 0 && refs_ >= 1, "the reader is held while it works");
    VP_ASSERT(VP_IMPLIES(*keep, !eof_ && !read_err), "reading goes on until the end");
    VP_ASSERT(VP_IMPLIES(!*keep, stop), "and no sooner");
    VP_ASSERT(p_->shutdown_requested == (read_err || shut_), "a shutdown is remembered, as is an error");
    if (*phase == 0) {
        eof_ = vp_bool("eof"); read_err = vp_bool("err"); empty_ = vp_bool("empty");
        vp_assume(!(eof_ && read_err)); n_err = read_err;
        *keep = vp_bool("keep");
        if (vp_bool("shut")) shut_ = 1;
        p_->shutdown_requested = read_err || shut_;
        if (!dropped_ && vp_bool("dropped")) { dropped_ = 1; refs_--; }
        any_progress();
        vp_assume(VP_IMPLIES(*keep, !eof_ && !read_err) && VP_IMPLIES(!*keep, eof_ || read_err || shut_));
    } else { VP_REACH("reading on"); vp_assume(0); }
    (*phase)++;
}
void vp_cut_rest(int *phase)
{
    VP_ASSERT(!pending_ && n_fin == 0, "everything read so far has been handed on");
    VP_ASSERT(!eof_ && !read_err && !empty_ && !shut_ && n_err == 0, "the rest is read until the end");
    VP_ASSERT(gone_ == 0 && refs_ >= 1, "the reader is held while it works");
    if (*phase == 0) {
        if (!dropped_ && vp_bool("dropped")) { dropped_ = 1; refs_--; }
        any_progress();
    } else { VP_REACH("the rest is read"); vp_assume(0); }
    (*phase)++;
}
#endif

int vp_main(void)
{
    gboolean r;
    p_ = malloc(sizeof *p_); memset(p_, 0, sizeof *p_);
    vp_class_init(milter_reader_get_type(), &klass_);
    vp_set_private(R, milter_reader_get_type(), p_);
    *(gpointer *)R = &klass_;
    p_->io_channel = CH; p_->loop = LOOP; loop_refs = 1;
    p_->read_watch_id = RID; p_->error_watch_id = EID;
    more_ = vp_below("more", 4);
#if defined(CASE_read_watch)
    {
        int req = vp_bool("requested");
        if (req) { p_->shutdown_requested = TRUE; shut_ = 1; }
        act_flow = vp_below("act_flow", 4); act_fin = vp_below("act_fin", 4); act_err = vp_below("act_err", 4);
        in_callback = 1;
        r = read_watch_func(CH, G_IO_IN, R);
        in_callback = 0;
        VP_REACH("called");
        VP_ASSERT(!pending_, "everything read is handed on");
        VP_ASSERT(VP_IMPLIES(req, n_read == 0), "after a shutdown nothing is read");
        VP_ASSERT(VP_IMPLIES(!req, n_read > 0), "what has come is read");
        VP_ASSERT(n_err == !!read_err, "an error is reported once");
        VP_ASSERT(n_fin == (eof_ || read_err || shut_), "the end is told once, when it has come");
        VP_ASSERT(!!r == !n_fin, "until then more is awaited");
        if (!gone_) {
            VP_ASSERT(refs_ == 1, "the reader is left to its owner");
            VP_ASSERT(p_->processing == FALSE, "it is through");
            VP_ASSERT(p_->read_watch_id == (n_fin ? 0 : RID) && p_->error_watch_id == (n_fin ? 0 : EID), "and knows what it waits for");
        }
        VP_ASSERT(removed_e == !!n_fin && removed_r == 0, "the end is awaited as long as it has not come");
    }
#elif defined(CASE_error_watch)
    {
        int req = vp_bool("requested"), hup = vp_bool("hup"), ioerr = vp_bool("ioerr"), nval = vp_bool("nval");
        GIOCondition c = (hup ? G_IO_HUP : 0) | (ioerr ? G_IO_ERR : 0) | (nval ? G_IO_NVAL : 0);
        vp_assume(c);
        if (req) { p_->shutdown_requested = TRUE; shut_ = 1; }
        act_flow = vp_below("act_flow", 4); act_fin = vp_below("act_fin", 4); act_err = vp_below("act_err", 4);
        in_callback = hup && !ioerr;
        if (!in_callback && act_err & 1) act_err &= 2;
        r = error_watch_func(CH, c, R);
        in_callback = 0;
        VP_REACH("called");
        VP_ASSERT(!r && n_fin == 1, "the end is told once");
        VP_ASSERT(!pending_, "everything read is handed on");
        if (hup && !ioerr && !req) VP_ASSERT(eof_ || read_err || empty_ || shut_, "what came before the end is handed on first");
        VP_ASSERT(VP_IMPLIES(ioerr, n_err == 1) && VP_IMPLIES(read_err, n_err == 1) && n_err <= 1, "an error is reported once");
        VP_ASSERT(VP_IMPLIES(!hup && !req, n_err == 1) && VP_IMPLIES(!ioerr && (hup || req) && !read_err, n_err == 0), "a closed connection is none");
        VP_ASSERT(removed_r == 1, "no more is awaited");
        if (!gone_) {
            VP_ASSERT(refs_ == 1 && p_->read_watch_id == 0 && p_->error_watch_id == 0 && p_->loop == NULL, "the reader knows");
            VP_ASSERT(!p_->processing, "it is through");
        }
    }
#elif defined(CASE_shutdown)
    {
        int watching = vp_bool("watching"), req = vp_bool("req"), processing = vp_bool("processing");
        if (!watching) { p_->read_watch_id = 0; p_->error_watch_id = 0; p_->loop = NULL; loop_refs = 0; }
        p_->shutdown_requested = req; p_->processing = processing;
        act_fin = vp_bool("drop") ? 2 : 0;
        milter_reader_shutdown(R);
        if (!watching || req) VP_ASSERT(n_fin == 0 && n_unref == 0 && removed_r + removed_e == 0 && p_->shutdown_requested == req, "what was not started or is being shut down is not shut down");
        else if (processing) {
            VP_REACH("while reading");
            VP_ASSERT(p_->shutdown_requested && n_fin == 0 && n_unref == 0 && p_->io_channel == CH, "a reader at work ends when it is through");
            VP_ASSERT(p_->read_watch_id == RID && p_->error_watch_id == EID && removed_r + removed_e == 0, "and is watched until then");
        } else {
            VP_REACH("now");
            VP_ASSERT(n_fin == 1 && removed_r == 1 && removed_e == 1 && n_unref == 1, "else the end is told once and nothing is awaited any more");
            if (!gone_) VP_ASSERT(p_->io_channel == NULL && !p_->shutdown_requested, "the channel is released");
        }
        VP_ASSERT(n_read == 0 && n_err == 0, "nothing else happens");
    }
#elif defined(CASE_start)
    {
        int had = vp_bool("had"), channel = vp_bool("channel");
        if (!had) { p_->read_watch_id = 0; p_->error_watch_id = 0; }
        if (!channel) p_->io_channel = NULL;
        new_id[0] = vp_bool("first") ? 20 : 0; new_id[1] = vp_bool("second") ? 21 : 0;
        milter_reader_start(R, LOOP2);
        if (had || !channel) VP_ASSERT(n_watch == 0 && p_->loop == LOOP && p_->read_watch_id == (had ? RID : 0), "only what has not started is started");
        else {
            VP_REACH("started");
            VP_ASSERT(watch_[0].func == (gpointer)read_watch_func && watch_[0].cond == (G_IO_IN | G_IO_PRI) && watch_[0].loop == LOOP2, "what comes is awaited");
            VP_ASSERT(n_watch == (new_id[0] ? 2 : 1), "as is the end");
            if (new_id[0]) VP_ASSERT(watch_[1].func == (gpointer)error_watch_func && watch_[1].cond == (G_IO_ERR | G_IO_HUP | G_IO_NVAL) && watch_[1].loop == LOOP2, "of whatever kind");
            VP_ASSERT(p_->read_watch_id == (new_id[0] && new_id[1] ? 20 : 0) && p_->error_watch_id == (new_id[0] ? new_id[1] : 0), "both or none");
            VP_ASSERT(removed_new == (new_id[0] && !new_id[1]), "half of it is undone");
            VP_ASSERT(p_->loop == (new_id[0] && new_id[1] ? LOOP2 : LOOP) && loop_refs == 1, "the loop is held");
        }
        VP_ASSERT(milter_reader_is_watching(R) == (p_->read_watch_id > 0), "and says so");
    }
#else
#error no case
#endif
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
