/* The contract of MilterWriter: what is written goes to the channel whole and
 * in order, whatever part of it the channel takes at a time; a flush is
 * reported once when everything written before it has gone; errors are
 * reported; nothing of a writer is used once its owner has dropped it.
 *
 * Everything written is the stream S; the buffer is the part S[out_..in_) the
 * channel has not taken yet (A: any length; the buffer is that window). */
#include "vp.h"
#ifdef VP_A
#define VP_OWN_GSTRING 1
#endif
#define VP_OWN_REFCOUNT 1
static GIOStatus my_write(GIOChannel *c, const gchar *buf, gssize count, gsize *written, GError **error);
static GIOStatus my_flush(GIOChannel *c, GError **error);
static void my_channel_unref(GIOChannel *c);
#define g_io_channel_write_chars my_write
#define g_io_channel_flush my_flush
#define g_io_channel_unref my_channel_unref
#include "milter/core/milter-writer.c"

GType milter_error_emittable_get_type(void) { return 80; }
GType milter_finished_emittable_get_type(void) { return 84; }
GParamSpec *g_param_spec_pointer(const gchar *n, const gchar *a, const gchar *b, GParamFlags f) { return NULL; }
GParamSpec *g_param_spec_uint(const gchar *n, const gchar *a, const gchar *b, guint l, guint h, guint d, GParamFlags f) { return NULL; }
void g_object_class_install_property(GObjectClass *c, guint id, GParamSpec *s) { }
gpointer g_object_new(GType t, const gchar *f, ...) { return NULL; }

static struct { GObject o[8]; } obj_;
#define W ((MilterWriter *)&obj_)
static MilterWriterPrivate *p_;         /* freed when the last reference goes */
static MilterWriterClass klass_;
static gchar channel_, loop_, loop2_;
#define CH ((GIOChannel *)&channel_)
#define LOOP ((MilterEventLoop *)&loop_)
#define LOOP2 ((MilterEventLoop *)&loop2_)
#define WID 11
#define FID 12
#define EID 13
static int refs_ = 1, gone_;
static char *S; static gsize in_, out_;
static int n_watch, n_remove, n_write, n_flush, n_flushed, n_err, n_fin, n_unref, loop_refs, removed_w, removed_f, removed_e;
static gpointer watch_func; static GIOCondition watch_cond; static guint new_id; static MilterEventLoop *watch_loop;
static int write_err, flush_err; static GIOStatus flush_status;
static gsize taken_;
static GError err_store, sub_store;
static int act_flushed, act_err, act_fin;       /* what the owner does when told */
static int shut_, asked_, refused_;

#ifdef VP_A
static GString buf_;
GString *g_string_new(const gchar *v) { return &buf_; }
GString *g_string_insert_len(GString *g, gssize at, const gchar *v, gssize n)
{
    __CPROVER_assert(g == &buf_, "INAPPLICABLE another string");
    VP_ASSERT((at < 0 || (gsize)at == g->len), "what is written is added at the end");
    VP_ASSERT(v == S + in_ && n >= 0, "exactly what is given is written");
    g->len += n; in_ += n;
    return g;
}
GString *g_string_append_len(GString *g, const gchar *v, gssize n) { return g_string_insert_len(g, -1, v, n); }
GString *g_string_erase(GString *g, gssize at, gssize n)
{
    VP_ASSERT(at == 0, "what was taken is dropped from the front");
    if (n < 0) n = g->len;
    VP_ASSERT((gsize)n <= g->len, "only what is there");
    g->str += n; g->len -= n;
    return g;
}
GString *g_string_truncate(GString *g, gsize n)
{ if (n < g->len) { VP_ASSERT(n == 0, "nothing is dropped from the end"); g->str += g->len; g->len = 0; } return g; }
GString *g_string_set_size(GString *g, gsize n) { return g_string_truncate(g, n); }
gchar *g_string_free(GString *g, gboolean all) { return NULL; }
gchar *g_string_free_and_steal(GString *g) { return g->str; }
static int is_window(const char *p, gsize n, gsize from, gsize to) { return p == S + from && n == to - from; }
#else
static int is_window(const char *p, gsize n, gsize from, gsize to) { return n == to - from && memcmp(p, S + from, n) == 0; }
#endif
#define BUFFER_IS(from, to) is_window(p_->buffer->str, p_->buffer->len, from, to)

gpointer (g_object_ref)(gpointer o)
{ if (o == &obj_) { VP_ASSERT(!gone_, "a writer that is gone is not used"); refs_++; } else loop_refs++; return o; }
void g_object_unref(gpointer o)
{
    if (o != &obj_) { loop_refs--; return; }
    VP_ASSERT(!gone_ && refs_ > 0, "a writer is released as often as it was taken");
    if (--refs_ == 0) { gone_ = 1; free(p_); }
}
static void owner(int what)
{
    GError *e = NULL;
    switch (what) {
    case 1: shut_ = 1; milter_writer_shutdown(W); break;
    case 2: asked_ = 1; if (!milter_writer_flush(W, &e)) refused_ = 1; break;
    case 3: g_object_unref(W); break;
    case 4: shut_ = 1; milter_writer_shutdown(W); g_object_unref(W); break;
    }
}
void vp_on_emit(VpEmit *e)
{
    int what = act_flushed;
    VP_ASSERT(vp_is(e, "flushed"), "flushed is the signal of a flush");
    n_flushed++; act_flushed = 0;
    owner(what);
}
void milter_error_emittable_emit(MilterErrorEmittable *o, GError *error)
{
    int what = act_err;
    VP_ASSERT((gpointer)o == (gpointer)W && error != NULL, "the error is reported");
    n_err++; act_err = 0;
    owner(what);
}
void milter_finished_emittable_emit(MilterFinishedEmittable *o)
{
    int what = act_fin;
    VP_ASSERT((gpointer)o == (gpointer)W, "the writer has finished");
    n_fin++; act_fin = 0;
    owner(what);
}
void milter_utils_set_error_with_sub_error(GError **error, GQuark domain, gint code, GError *sub, const gchar *format, ...)
{
    VP_ASSERT(sub == &sub_store, "with its cause");
#ifdef VP_N
    *error = g_error_new_literal(1, 1, "e");
#else
    *error = &err_store;
#endif
}
gchar *milter_utils_inspect_io_condition_error(GIOCondition c) { return NULL; }
guint milter_event_loop_watch_io(MilterEventLoop *loop, GIOChannel *channel, GIOCondition condition, GIOFunc function, gpointer data)
{
    VP_ASSERT(loop != NULL && channel == CH && data == (gpointer)W, "the writer's channel is watched");
    n_watch++; watch_func = function; watch_cond = condition; watch_loop = loop;
    return new_id;
}
gboolean milter_event_loop_remove(MilterEventLoop *loop, guint id)
{
    VP_ASSERT(loop == LOOP, "a watch is removed from the loop it is in");
    VP_ASSERT(id == WID || id == FID || id == EID || id == new_id, "a watch of this writer is removed");
    n_remove++;
    if (id == WID) removed_w++;
    if (id == FID) removed_f++;
    if (id == EID) removed_e++;
    return TRUE;
}
static GIOStatus my_write(GIOChannel *c, const gchar *buf, gssize count, gsize *written, GError **error)
{
    gsize w;
    VP_ASSERT(c == CH && n_unref == 0, "written to the writer's channel");
    VP_ASSERT(count > 0 && is_window(buf, count, out_, in_), "all that is left is offered, in order");
    n_write++;
#ifdef VP_N
    w = vp_below("taken", count + 1);
#else
    w = vp_u64("taken"); vp_assume(w <= (gsize)count);
#endif
    out_ += w; taken_ = w;
    *written = w;
    write_err = vp_bool("write_err");
    if (write_err) { *error = &sub_store; return G_IO_STATUS_ERROR; }
    return w ? G_IO_STATUS_NORMAL : G_IO_STATUS_AGAIN;
}
static GIOStatus my_flush(GIOChannel *c, GError **error)
{
    guint k = vp_below("flush", 3);
    VP_ASSERT(c == CH && n_unref == 0, "the writer's channel is flushed");
    n_flush++;
    flush_err = k == 0;
    flush_status = k == 0 ? G_IO_STATUS_ERROR : k == 1 ? G_IO_STATUS_AGAIN : G_IO_STATUS_NORMAL;
    if (flush_err) *error = &sub_store;
    return flush_status;
}
static void my_channel_unref(GIOChannel *c) { VP_ASSERT(c == CH, "the channel is released"); n_unref++; }

static gsize fp0, chunk; static guint w0, f0, e0; static MilterEventLoop *l0; static int has_channel;
static void setup(void)
{
    gsize len;
#ifdef VP_N
    S = malloc(64); { int i; for (i = 0; i < 64; i++) S[i] = vp_u8("s"); }
    out_ = vp_below("out", 20); len = vp_below("len", 20); chunk = vp_below("chunk", 20);
#else
    out_ = vp_u64("out"); len = vp_u64("len"); chunk = vp_u64("chunk");
    vp_assume(out_ <= VP_AMAX && len <= VP_AMAX && chunk <= VP_AMAX);
    S = vp_block("stream", out_ + len + chunk);
#endif
    in_ = out_ + len;
    p_ = malloc(sizeof *p_); memset(p_, 0, sizeof *p_);
    vp_class_init(milter_writer_get_type(), &klass_);
    vp_set_private(W, milter_writer_get_type(), p_);
    *(gpointer *)W = &klass_;
#ifdef VP_A
    buf_.str = S + out_; buf_.len = len; p_->buffer = &buf_;
#else
    p_->buffer = g_string_new_len(S + out_, len);
#endif
    new_id = 20 + vp_below("id", 5);
    has_channel = 1; l0 = LOOP;
    p_->io_channel = CH; p_->loop = LOOP; loop_refs = 1;
    p_->write_watch_id = w0 = vp_bool("w") ? WID : 0;
    p_->flush_watch_id = f0 = vp_bool("f") ? FID : 0;
    p_->error_watch_id = e0 = EID;
#ifdef VP_N
    fp0 = vp_below("fp", len + 1);
#else
    fp0 = vp_u64("fp"); vp_assume(fp0 <= len);
#endif
    if (!w0) fp0 = 0;           /* a flush waits only for what is being written */
    p_->flush_point = fp0;
}

int vp_main(void)
{
    GError *error = NULL; gboolean r; gsize len0;
    vp_witness();
    setup();
    len0 = in_ - out_;
#if defined(CASE_init)
    {
        p_->buffer = NULL; p_->write_watch_id = 0; p_->flush_watch_id = 0; p_->error_watch_id = 0;
#ifdef VP_A
        buf_.len = 0;
#endif
        milter_writer_init(W);
        VP_REACH("made");
        VP_ASSERT(p_->buffer && p_->buffer->len == 0 && p_->flush_point == 0, "a writer has nothing to write at first");
        VP_ASSERT(!p_->write_watch_id && !p_->flush_watch_id && !p_->error_watch_id && !p_->writing, "and waits for nothing");
    }
#elif defined(CASE_write)
    {
        gsize o = out_, i = in_;
        if (vp_bool("nochannel")) { p_->io_channel = NULL; has_channel = 0; }
        if (vp_bool("noloop")) { p_->loop = NULL; l0 = NULL; }
        r = milter_writer_write(W, S + in_, chunk, &error);
#ifndef VP_A
        if (r) in_ += chunk;
#endif
        if (!has_channel || !l0) {
            VP_ASSERT(!r && error != NULL, "without a channel or loop writing is refused");
            VP_ASSERT(p_->buffer->len == len0 && n_watch == 0, "and nothing is kept");
        } else {
            VP_REACH("written");
            VP_ASSERT(r && error == NULL, "it is accepted");
            VP_ASSERT(BUFFER_IS(o, i + chunk), "it is kept after what was written before");
            VP_ASSERT(VP_IMPLIES(chunk > 0, p_->write_watch_id != 0), "and is going to be written");
            VP_ASSERT(n_watch == (chunk > 0 && !w0) && VP_IMPLIES(w0, p_->write_watch_id == w0), "by one watch");
            if (n_watch) VP_ASSERT(watch_func == (gpointer)write_watch_func && watch_cond == G_IO_OUT && watch_loop == LOOP && p_->write_watch_id == new_id, "when the channel can take it");
        }
        VP_ASSERT(p_->flush_point == fp0 && p_->flush_watch_id == f0 && n_write + n_flush + n_flushed + n_err + n_fin == 0, "nothing else happens");
    }
#elif defined(CASE_flush)
    {
        if (vp_bool("nochannel")) { p_->io_channel = NULL; has_channel = 0; }
        if (vp_bool("noloop")) { p_->loop = NULL; l0 = NULL; }
        r = milter_writer_flush(W, &error);
        if (!has_channel || !l0) {
            VP_ASSERT(!r && error != NULL, "without a channel or loop a flush is refused");
            VP_ASSERT(n_watch == 0 && p_->flush_point == fp0, "and not awaited");
        } else {
            VP_REACH("flush");
            VP_ASSERT(r && error == NULL, "it is accepted");
            if (w0 && len0 > 0) VP_ASSERT(p_->flush_point == len0, "it waits for all that is still to be written");
            else VP_ASSERT(p_->flush_watch_id != 0, "nothing is left to be written: it is done when the channel can");
            VP_ASSERT(VP_IMPLIES(f0, p_->flush_watch_id == f0) && n_watch == (!(w0 && len0 > 0) && !f0), "by one watch");
            if (n_watch) VP_ASSERT(watch_func == (gpointer)flush_watch_func && watch_cond == G_IO_OUT && p_->flush_watch_id == new_id, "for flushing");
        }
        VP_ASSERT(BUFFER_IS(out_, in_) && p_->write_watch_id == w0, "what is to be written stays");
        VP_ASSERT(n_write + n_flush + n_flushed + n_err + n_fin == 0, "nothing else happens");
    }
#elif defined(CASE_write_watch)
    {
        gsize o = out_;
        p_->write_watch_id = w0 = WID;
        act_err = vp_below("act_err", 5);
        vp_assume(act_err != 2);
        r = write_watch_func(CH, G_IO_OUT, W);
        VP_ASSERT(n_flushed <= (shut_ ? 1 : 0), "no flush is reported before it is done");
        VP_ASSERT(VP_IMPLIES(!shut_, n_write == (len0 > 0)), "the channel is given what there is, once");
        if (len0 == 0) {
            VP_REACH("nothing left");
            VP_ASSERT(!r && p_->write_watch_id == 0, "with nothing left it is not watched any more");
            VP_ASSERT(n_watch == 0 && p_->flush_watch_id == f0, "and nothing else happens");
        } else if (!shut_ && !gone_) {
            VP_REACH("went on");
            VP_ASSERT(BUFFER_IS(o + taken_, in_), "exactly what the channel took is dropped");
            VP_ASSERT(p_->flush_point == (fp0 > taken_ ? fp0 - taken_ : 0), "a flush waits for the rest of what was written before it");
            if (fp0 > 0 && fp0 <= taken_) VP_ASSERT(p_->flush_watch_id != 0, "it is done when all of that has been taken");
            VP_ASSERT(n_watch == (fp0 > 0 && fp0 <= taken_ && !f0), "and only then");
            if (n_watch) VP_ASSERT(watch_func == (gpointer)flush_watch_func && watch_cond == G_IO_OUT, "for flushing");
            VP_ASSERT(!!r == !write_err, "the channel is watched until all is written");
            VP_ASSERT(p_->write_watch_id == (r ? WID : 0) && !p_->writing, "which the writer knows");
        } else if (!gone_) {
            VP_ASSERT(!r && p_->write_watch_id == 0 && p_->loop == NULL && p_->io_channel == NULL, "a writer shut down is not watched");
        } else VP_ASSERT(!r, "a writer that is gone is not watched");
        VP_ASSERT(VP_IMPLIES(write_err && !shut_, n_err == 1), "an error is reported");
        VP_ASSERT(VP_IMPLIES(len0 == 0, n_err == 0) && n_fin == 0, "once");
        VP_ASSERT(VP_IMPLIES(!gone_, refs_ == 1), "the writer is left to its owner");
    }
#elif defined(CASE_flush_watch)
    {
        p_->flush_watch_id = f0 = FID;
        act_flushed = vp_below("act_flushed", 5); act_err = vp_below("act_err", 5);
        vp_assume(act_err != 2);
        vp_assume(act_flushed == 0 || act_err == 0);
        if (act_flushed == 1 || act_flushed == 4 || act_err == 1 || act_err == 4) vp_assume(len0 == 0);
        r = flush_watch_func(CH, G_IO_OUT, W);
        VP_REACH("called");
        VP_ASSERT(n_flush == 1, "the channel is flushed");
        VP_ASSERT(n_flushed == (flush_status == G_IO_STATUS_NORMAL), "it is reported once, when it is done");
        VP_ASSERT(n_err == flush_err, "an error is reported");
        VP_ASSERT(!!r == (flush_status == G_IO_STATUS_AGAIN), "it is tried again if the channel was not ready");
        if (!gone_) {
            VP_ASSERT(refs_ == 1, "the writer is left to its owner");
            if (r) VP_ASSERT(p_->flush_watch_id == FID, "by the same watch");
            else if (asked_ && !refused_) {
                if (w0 && len0 > 0) VP_ASSERT(p_->flush_watch_id == 0 && p_->flush_point == len0, "another flush waits for what is to be written");
                else VP_ASSERT(p_->flush_watch_id == new_id && n_watch == 1, "another flush asked for is done as well");
            } else VP_ASSERT(p_->flush_watch_id == 0, "it is over");
            VP_ASSERT(VP_IMPLIES(!shut_, BUFFER_IS(out_, in_) && p_->write_watch_id == w0), "what is to be written stays");
        }
        VP_ASSERT(n_fin == 0 && n_write == 0, "nothing else happens");
    }
#elif defined(CASE_error_watch)
    {
        GIOCondition c = (1u << (3 + vp_below("cond", 3)));
        act_err = vp_below("act_err", 5); act_fin = vp_below("act_fin", 5);
        vp_assume(act_err != 2 && act_fin != 2);
        vp_assume(act_err == 0 || act_fin == 0);
        if (act_err || act_fin) vp_assume(len0 == 0);
        r = error_watch_func(CH, c, W);
        VP_REACH("called");
        VP_ASSERT(!r, "nothing more is awaited");
        VP_ASSERT(n_err == 1 && n_fin == 1, "the error and then the end are reported, once");
        VP_ASSERT(VP_IMPLIES(w0, removed_w == 1) && VP_IMPLIES(f0, removed_f == 1), "nothing more is going to be written");
        if (!gone_) {
            VP_ASSERT(p_->error_watch_id == 0 && p_->write_watch_id == 0 && p_->flush_watch_id == 0, "the writer knows");
            VP_ASSERT(refs_ == 1, "the writer is left to its owner");
        }
    }
#elif defined(CASE_shutdown)
    {
        gsize o = out_;
        int started = vp_bool("started");
        if (!started) p_->error_watch_id = e0 = 0;
        if (started && vp_bool("writing")) p_->writing = TRUE;
        act_flushed = vp_bool("act") ? 2 : 0;
        milter_writer_shutdown(W);
        if (!started) {
            VP_REACH("not started");
            VP_ASSERT(p_->io_channel == CH && n_unref == 0 && n_remove == 0 && p_->loop == LOOP, "a writer not started stays as it is");
            VP_ASSERT(n_write == 0 && BUFFER_IS(o, in_), "with what is to be written");
        } else {
            VP_REACH("shut down");
            VP_ASSERT(removed_e == 1 && removed_w == !!w0 && removed_f == !!f0, "nothing is awaited any more");
            VP_ASSERT(p_->error_watch_id == 0 && p_->write_watch_id == 0 && p_->flush_watch_id == 0 && p_->loop == NULL && loop_refs == 0, "the loop is left");
            VP_ASSERT(p_->io_channel == NULL && n_unref == 1, "the channel is released");
            VP_ASSERT(n_write == (len0 > 0 && !p_->writing), "what is left is given to the channel");
            if (n_write) {
                VP_ASSERT(BUFFER_IS(o + taken_, in_), "exactly what it took is dropped");
                VP_ASSERT(n_flush == !write_err && n_flushed == !write_err, "and flushed");
                VP_ASSERT(n_err == (write_err || flush_err), "an error is reported");
            } else VP_ASSERT(n_err + n_flushed + n_flush == 0, "nothing else happens");
            VP_ASSERT(VP_IMPLIES(asked_, refused_), "no more is accepted");
            VP_ASSERT(n_watch == 0 && n_fin == 0, "nothing is awaited");
        }
    }
#elif defined(CASE_start)
    {
        int had = vp_bool("had"), old = vp_bool("old");
        if (!had) p_->error_watch_id = e0 = 0;
        if (vp_bool("nochannel")) { p_->io_channel = NULL; has_channel = 0; }
        if (!old) { p_->loop = NULL; loop_refs = 0; }
        if (vp_bool("fails")) new_id = 0;
        milter_writer_start(W, LOOP2);
        if (had || !has_channel) VP_ASSERT(n_watch == 0 && p_->loop == (old ? LOOP : NULL) && p_->error_watch_id == e0, "only what has not started is started");
        else {
            VP_REACH("started");
            VP_ASSERT(n_watch == 1 && watch_func == (gpointer)error_watch_func && watch_cond == (G_IO_ERR | G_IO_HUP | G_IO_NVAL) && watch_loop == LOOP2, "the end of the channel is awaited");
            VP_ASSERT(p_->error_watch_id == new_id, "by this watch");
            VP_ASSERT(p_->loop == (new_id ? LOOP2 : old ? LOOP : NULL), "in the loop given");
            VP_ASSERT(loop_refs == (new_id ? 1 : old), "which is held once");
        }
        VP_ASSERT(milter_writer_is_watching(W) == (p_->error_watch_id > 0), "and says so");
    }
#else
#error no case
#endif
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
