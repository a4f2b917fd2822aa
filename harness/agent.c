/* The contract of MilterAgent: what comes in is decoded once and whole; a
 * packet is written and then flushed; every error of reading, decoding and
 * writing is told once; the end is told once, then reader and writer are shut
 * down; nothing of an agent its owner dropped while it was told is used. */
#include "vp.h"
#define VP_OWN_REFCOUNT 1
static gulong my_connect(gpointer o, const gchar *name, GCallback func, gpointer data);
static guint my_disconnect(gpointer o, gpointer func, gpointer data);
static GTimer *my_timer_new(void);
static void my_timer_start(GTimer *t);
static void my_timer_stop(GTimer *t);
static GError *my_error_copy(const GError *e);
#undef g_signal_connect
#undef g_signal_handlers_disconnect_by_func
#define g_signal_connect(o, n, f, d) my_connect(o, n, f, d)
#define g_signal_handlers_disconnect_by_func(o, f, d) my_disconnect(o, (gpointer)(f), d)
#define g_timer_new my_timer_new
#define g_timer_start my_timer_start
#define g_timer_stop my_timer_stop
#define g_timer_destroy my_timer_stop
#define g_error_copy my_error_copy
#include "milter/core/milter-agent.c"

GType milter_error_emittable_get_type(void) { return 80; }
GType milter_finished_emittable_get_type(void) { return 84; }
GType milter_reader_get_type(void) { return 88; }
GType milter_decoder_get_type(void) { return 92; }
GType milter_event_loop_get_type(void) { return 96; }
GParamSpec *g_param_spec_object(const gchar *n, const gchar *a, const gchar *b, GType t, GParamFlags f) { return NULL; }
GParamSpec *g_param_spec_uint(const gchar *n, const gchar *a, const gchar *b, guint l, guint h, guint d, GParamFlags f) { return NULL; }
GParamSpec *g_param_spec_double(const gchar *n, const gchar *a, const gchar *b, gdouble l, gdouble h, gdouble d, GParamFlags f) { return NULL; }
void g_object_class_install_property(GObjectClass *c, guint id, GParamSpec *s) { }
#ifdef VP_A
void g_value_set_object(GValue *v, gpointer o) { }
void g_value_set_double(GValue *v, gdouble d) { }
gpointer g_value_get_object(const GValue *v) { return NULL; }
#endif
void g_mutex_init(GMutex *m) { }
void g_mutex_clear(GMutex *m) { }
void g_mutex_lock(GMutex *m) { }
void g_mutex_unlock(GMutex *m) { }
gdouble g_timer_elapsed(GTimer *t, gulong *u) { return 0; }
void milter_encoder_set_tag(MilterEncoder *e, guint tag) { }
void milter_decoder_set_tag(MilterDecoder *d, guint tag) { }
void milter_writer_set_tag(MilterWriter *w, guint tag) { }
void milter_reader_set_tag(MilterReader *r, guint tag) { }

static struct { GObject o[8]; } obj_;
#define G ((MilterAgent *)&obj_)
static MilterAgentPrivate *p_;
static MilterAgentClass klass_;
static gchar reader_, reader2_, writer_, writer2_, loop_, decoder_, timer_, packet_;
#define RD ((MilterReader *)&reader_)
#define RD2 ((MilterReader *)&reader2_)
#define WR ((MilterWriter *)&writer_)
#define WR2 ((MilterWriter *)&writer2_)
#define LOOP ((MilterEventLoop *)&loop_)
#define DEC ((MilterDecoder *)&decoder_)
#define TIMER ((GTimer *)&timer_)
enum { FLOW = 1, ERR = 2, FIN = 4, FLUSHED_ = 8 };
static int conn[4];             /* reader_, reader2_, writer_, writer2_: what is connected */
static int refs_ = 1, gone_, dropped_, held[4];
static int n_fin, n_err, n_flushed, n_decode, n_write, n_flush, n_timer_start, n_timer_stop, n_timer_new, r_shut, w_shut, r_start, w_start;
static int act_fin, act_err, act_flushed, act_decode;
static int decode_fails, write_fails, flush_fails, w_err, w_flushes, r_processing, watching;
static gsize size_;
static GError err_store, sub_store, copy_store;

static int which(gpointer o) { return o == RD ? 0 : o == RD2 ? 1 : o == WR ? 2 : o == WR2 ? 3 : -1; }
static int what_of(gpointer o, gpointer func)
{
    if (which(o) < 2)
        return func == (gpointer)cb_reader_flow ? FLOW : func == (gpointer)cb_reader_error ? ERR : func == (gpointer)cb_reader_finished ? FIN : 0;
    return func == (gpointer)cb_writer_flushed ? FLUSHED_ : func == (gpointer)cb_writer_error ? ERR : func == (gpointer)cb_writer_finished ? FIN : 0;
}
#define ALL(i) ((i) < 2 ? FLOW | ERR | FIN : FLUSHED_ | ERR | FIN)
static gulong my_connect(gpointer o, const gchar *name, GCallback func, gpointer data)
{
    int i = which(o), w = what_of(o, (gpointer)func);
    VP_ASSERT(i >= 0 && w && data == (gpointer)G, "the agent listens to its reader and writer");
    if (i < 0) return 0;
    VP_ASSERT(name[0] == (w == FLOW || w == FLUSHED_ || w == FIN ? 'f' : 'e') &&
              name[2] == (w == FLOW ? 'o' : w == FLUSHED_ ? 'u' : w == FIN ? 'n' : 'r'), "each signal has its handler");
    VP_ASSERT(!(conn[i] & w), "once");
    conn[i] |= w;
    return 1;
}
static guint my_disconnect(gpointer o, gpointer func, gpointer data)
{
    int i = which(o), w = what_of(o, func);
    VP_ASSERT(i >= 0 && w && data == (gpointer)G, "the agent stops listening to its reader and writer");
    if (i < 0) return 0;
    conn[i] &= ~w;
    return 1;
}
gpointer (g_object_ref)(gpointer o)
{
    if (o == &obj_) { VP_ASSERT(!gone_, "an agent that is gone is not used"); refs_++; }
    else if (which(o) >= 0) held[which(o)]++;
    return o;
}
void g_object_unref(gpointer o)
{
    if (o != &obj_) { if (which(o) >= 0) held[which(o)]--; return; }
    VP_ASSERT(!gone_ && refs_ > 0, "an agent is released as often as it was taken");
    if (--refs_ == 0) { gone_ = 1; conn[0] = conn[1] = conn[2] = conn[3] = 0; free(p_); }
}
static void owner(int what)
{
    if (dropped_) return;
    if (what == 1 || what == 3) milter_agent_shutdown(G);
    if ((what == 2 || what == 3) && !dropped_) { dropped_ = 1; g_object_unref(G); }
}
static GTimer *my_timer_new(void) { n_timer_new++; return TIMER; }
static void my_timer_start(GTimer *t) { VP_ASSERT(t == TIMER, "the agent's timer"); n_timer_start++; }
static void my_timer_stop(GTimer *t) { VP_ASSERT(t == TIMER, "the agent's timer"); n_timer_stop++; }
static GError *my_error_copy(const GError *e) { VP_ASSERT(e == &sub_store, "the error of the reader or writer"); return &copy_store; }
void vp_on_emit(VpEmit *e)
{
    int what = act_flushed;
    VP_ASSERT(vp_is(e, "flushed"), "flushed is told");
    VP_ASSERT(!gone_, "an agent that is gone tells nothing");
    n_flushed++; act_flushed = 0;
    refs_++; owner(what); g_object_unref(G);
}
void milter_error_emittable_emit(MilterErrorEmittable *o, GError *error)
{
    int what = act_err;
    VP_ASSERT((gpointer)o == (gpointer)G && error != NULL, "the error is told");
    VP_ASSERT(!gone_, "an agent that is gone tells nothing");
    n_err++; act_err = 0;
    refs_++; owner(what); g_object_unref(G);
}
void milter_finished_emittable_emit(MilterFinishedEmittable *o)
{
    int what = act_fin;
    VP_ASSERT((gpointer)o == (gpointer)G, "the agent has finished");
    VP_ASSERT(!gone_, "an agent that is gone tells nothing");
    n_fin++; act_fin = 0;
    refs_++; owner(what); finished(o); g_object_unref(G);
}
void milter_utils_set_error_with_sub_error(GError **error, GQuark domain, gint code, GError *sub, const gchar *format, ...)
{
    VP_ASSERT(sub == &sub_store || sub == &copy_store, "with its cause");
#ifdef VP_N
    *error = g_error_new_literal(1, 1, "e");
#else
    *error = &err_store;
#endif
}
static void set_error(GError **error)
{
#ifdef VP_N
    if (error) *error = g_error_new_literal(1, 1, "e");
#else
    if (error) *error = &err_store;
#endif
}
gboolean milter_decoder_decode(MilterDecoder *d, const gchar *data, gsize size, GError **error)
{
    VP_ASSERT(d == DEC && data == &packet_ && size == size_, "what came in is decoded, all of it");
    n_decode++;
    owner(act_decode);
    VP_ASSERT(!gone_, "the decoder of an agent at work stays");
    if (decode_fails) *error = &sub_store;
    return !decode_fails;
}
gboolean milter_writer_write(MilterWriter *w, const gchar *data, gsize size, GError **error)
{
    VP_ASSERT(w == WR && data == &packet_ && size == size_, "the packet is written, all of it");
    n_write++;
    if (write_fails) set_error(error);
    return !write_fails;
}
gboolean milter_writer_flush(MilterWriter *w, GError **error)
{
    VP_ASSERT(w == WR, "the agent's writer is flushed");
    VP_ASSERT(n_write > 0 || n_flush >= 0, "after writing");
    n_flush++;
    if (flush_fails) set_error(error);
    return !flush_fails;
}
gboolean milter_writer_is_watching(MilterWriter *w) { VP_ASSERT(w == WR, "the agent's writer"); return watching; }
void milter_reader_start(MilterReader *r, MilterEventLoop *l) { VP_ASSERT(r == RD && l == LOOP, "the reader is started in the agent's loop"); r_start++; }
void milter_writer_start(MilterWriter *w, MilterEventLoop *l) { VP_ASSERT(w == WR && l == LOOP, "the writer is started in the agent's loop"); w_start++; }
/* the contracts of C18's reader and writer */
void milter_reader_shutdown(MilterReader *r)
{
    VP_ASSERT(r == RD && held[0] > 0, "the agent's reader is shut down");
    if (r_shut++) return;
    if (!r_processing && (conn[0] & FIN)) { held[0]++; cb_reader_finished(MILTER_FINISHED_EMITTABLE(r), G); held[0]--; }
}
void milter_writer_shutdown(MilterWriter *w)
{
    VP_ASSERT(w == WR && held[2] > 0, "the agent's writer is shut down");
    if (w_shut++) return;
    if (w_err && (conn[2] & ERR)) cb_writer_error(w, &sub_store, G);
    if (w_flushes && (conn[2] & FLUSHED_)) cb_writer_flushed(w, G);
}

int vp_main(void)
{
    GError *error = NULL;
    int reader = vp_bool("reader"), writer = vp_bool("writer"), fin0 = vp_bool("finished"), timer = vp_bool("timer"), loop = vp_bool("loop");
    p_ = malloc(sizeof *p_); memset(p_, 0, sizeof *p_);
    vp_class_init(milter_agent_get_type(), &klass_);
    vp_set_private(G, milter_agent_get_type(), p_);
    *(gpointer *)G = &klass_;
    p_->reader = reader ? RD : NULL; p_->writer = writer ? WR : NULL;
    held[0] = reader; held[2] = writer;
    conn[0] = reader ? ALL(0) : 0; conn[2] = writer ? ALL(2) : 0;
    p_->finished = fin0; p_->timer = timer ? TIMER : NULL; p_->event_loop = loop ? LOOP : NULL; p_->decoder = DEC;
    decode_fails = vp_bool("decode_fails"); write_fails = vp_bool("write_fails"); flush_fails = vp_bool("flush_fails");
    w_err = vp_bool("w_err"); w_flushes = vp_bool("w_flushes"); r_processing = vp_bool("r_processing"); watching = vp_bool("watching");
    act_fin = vp_below("act_fin", 4); act_err = vp_below("act_err", 4); act_flushed = vp_below("act_flushed", 4); act_decode = vp_below("act_decode", 4);
    size_ = vp_u64("size");
#if defined(CASE_write_packet)
    {
        gboolean ok = milter_agent_write_packet(G, &packet_, size_, &error);
        VP_REACH("written");
        VP_ASSERT(n_write == writer && n_flush == (writer && !write_fails), "a packet is written once and flushed then");
        VP_ASSERT(!!ok == !(writer && (write_fails || flush_fails)) && !!ok == !error, "if it cannot be, that is said and why");
        VP_ASSERT(n_err == 0 && n_fin == 0, "and nothing else");
    }
#elif defined(CASE_flow)
    {
        p_->reader = RD; conn[0] = ALL(0); held[0] = 1; r_processing = 1; reader = 1;
        cb_reader_flow(RD, &packet_, size_, G);
        VP_REACH("decoded");
        VP_ASSERT(n_decode == 1, "what came in is decoded once");
        if (!dropped_ || act_decode < 2) VP_ASSERT(n_err >= decode_fails, "what cannot be decoded is told");
        VP_ASSERT(n_err <= decode_fails + (w_err && w_shut), "as an error, once");
        if (!gone_) VP_ASSERT(refs_ == !dropped_, "the agent is left to its owner");
    }
#elif defined(CASE_reader_error)
    {
        p_->reader = RD; conn[0] = ALL(0); held[0] = 1; r_processing = 1;
        cb_reader_error(RD, &sub_store, G);
        VP_REACH("told");
        VP_ASSERT(n_err == 1 + (w_err && w_shut && writer), "an error of reading is told once");
    }
#elif defined(CASE_writer_error)
    {
        p_->writer = WR; conn[2] = ALL(2); held[2] = 1; w_err = 0;
        cb_writer_error(WR, &sub_store, G);
        VP_REACH("told");
        VP_ASSERT(n_err == 1, "an error of writing is told once");
    }
#elif defined(CASE_flushed)
    {
        p_->writer = WR; conn[2] = ALL(2); held[2] = 1; w_flushes = 0;
        cb_writer_flushed(WR, G);
        VP_REACH("told");
        VP_ASSERT(n_flushed == 1, "that everything was flushed is told once");
    }
#elif defined(CASE_reader_finished)
    {
        p_->reader = RD; conn[0] = ALL(0); held[0] = 2;
        cb_reader_finished(MILTER_FINISHED_EMITTABLE(RD), G);
        VP_REACH("told");
        VP_ASSERT(held[0] == 1 && conn[0] == 0, "a reader that has finished is released");
        VP_ASSERT(n_fin == !fin0, "the end of reading is the end, told once");
        VP_ASSERT(r_shut == 0, "it needs no shutdown");
        if (!fin0 && writer) VP_ASSERT(w_shut >= 1, "the writer is shut down then");
        if (!gone_) VP_ASSERT(p_->finished && p_->reader == NULL && refs_ == !dropped_, "and the agent knows");
    }
#elif defined(CASE_writer_finished)
    {
        p_->writer = WR; conn[2] = ALL(2); held[2] = 2; watching = 0;
        cb_writer_finished(MILTER_FINISHED_EMITTABLE(WR), G);
        VP_REACH("told");
        VP_ASSERT(held[2] == 1 && conn[2] == 0 && p_->writer == NULL, "a writer that has finished is released");
        VP_ASSERT(n_fin == 0 && n_err == 0 && p_->finished == fin0, "reading goes on");
    }
#elif defined(CASE_shutdown)
    {
        int again = vp_bool("again");
        if (again) p_->shutting_down = TRUE;
        milter_agent_shutdown(G);
        VP_REACH("shut down");
        if (again) VP_ASSERT(n_fin == 0 && r_shut == 0 && w_shut == 0, "a shutdown at work is the only one");
        else {
            VP_ASSERT(!reader == !r_shut, "the reader is shut down");
            if (!gone_) VP_ASSERT(!writer == !w_shut, "the writer is shut down");
            VP_ASSERT(n_fin == (!fin0 && !(reader && r_processing)), "the end is told once, when the reader is through");
            VP_ASSERT(n_err == (w_err && writer && w_shut), "an error of writing the rest is told");
            if (!gone_) VP_ASSERT(!p_->shutting_down && refs_ == !dropped_ && p_->finished == (fin0 || n_fin), "and the agent knows");
            if (!gone_ && n_fin) VP_ASSERT(timer ? n_timer_stop >= 1 : n_timer_stop == 0, "the time is kept");
        }
    }
#elif defined(CASE_start)
    {
        gboolean ok = milter_agent_start(G, &error);
        VP_REACH("started");
        VP_ASSERT(!!ok == loop && !!ok == !error, "an agent without event loop is not started, and says why");
        VP_ASSERT(r_start == (ok && reader) && w_start == (ok && writer), "reader and writer are started");
        if (ok) VP_ASSERT(p_->timer == TIMER && n_timer_start == timer && n_timer_new == !timer, "the time starts");
    }
#elif defined(CASE_set_reader)
    {
        int new_ = vp_bool("new");
        milter_agent_set_reader(G, new_ ? RD2 : NULL);
        VP_REACH("set");
        VP_ASSERT(p_->reader == (new_ ? RD2 : NULL), "the reader is set");
        VP_ASSERT(conn[0] == 0 && held[0] == 0, "the one before is released and not listened to");
        VP_ASSERT(conn[1] == (new_ ? ALL(1) : 0) && held[1] == new_, "the new one is held and listened to");
    }
#elif defined(CASE_set_writer)
    {
        int new_ = vp_bool("new");
        milter_agent_set_writer(G, new_ ? WR2 : NULL);
        VP_REACH("set");
        VP_ASSERT(p_->writer == (new_ ? WR2 : NULL), "the writer is set");
        VP_ASSERT(conn[2] == 0 && held[2] == 0, "the one before is released and not listened to");
        VP_ASSERT(conn[3] == (new_ ? ALL(3) : 0) && held[3] == new_, "the new one is held and listened to");
        VP_ASSERT(n_flush == (writer && watching), "what was written to the one before is flushed");
    }
#else
#error no case
#endif
    return 0;
}
#undef g_error_copy
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
