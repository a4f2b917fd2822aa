/* TUS: milter/core/milter-protocol.c */
/* CUT: milter/manager/milter-manager-children.c emit_replace_body_signal_string 0 */
/* CUT: milter/manager/milter-manager-children.c emit_replace_body_signal_file 0 */
/* Contracts of the functions that keep a body a milter replaces and send it to
 * the MTA (milter-manager-children.c), over the session of children_feed.c. */
#define VP_BODY_HARNESS 1
#include "children_feed.c"

#ifdef CASE_emit_body
static gsize emitted; static int em_w = -1;
static void vp_modification(const Ev *e)
{
    VP_ASSERT(e->id == EV_REPLACE_BODY, "the body is sent");
    VP_ASSERT(e->n <= chunk_size_ && (e->n > 0 || body_len == 0), "it is sent in parts of at most the configured size");
    VP_ASSERT(e->n <= body_len - emitted, "no more than the body is sent");
    vp_assume(e->n <= body_len - emitted);
#ifdef VP_A
    if (!in_file) VP_ASSERT(e->p0 == B_.g.str + emitted, "the bytes sent are the next ones of the body");
    else VP_ASSERT(e->p0 == rd_buf && e->n == rd_n && rd_pos == emitted, "the bytes sent are the next ones of the body");
#else
    { gsize i; for (i = 0; i < e->n; i++) if (emitted + i == vp_W) em_w = (guint8)e->p0[i]; }
#endif
    emitted += e->n;
}
void vp_cut_string(int *phase, gsize *offset)
{
    VP_ASSERT(*offset == emitted, "each part follows the one before");
    if (*phase == 0) {
        *phase = 1;
        emitted = nondet_vp_u64();
        vp_assume(emitted <= body_len);
        if (emitted) n_modification = 1;
        *offset = emitted;
        return;
    }
    VP_REACH("next part");
    vp_assume(0);
}
void vp_cut_file(int *phase, GIOStatus *status)
{
#ifdef VP_A
    VP_ASSERT(*status == G_IO_STATUS_EOF ? emitted == body_len : *status == G_IO_STATUS_NORMAL && F_.pos == emitted, "each part follows the one before");
    if (*phase == 0) {
        *phase = 1;
        emitted = nondet_vp_u64();
        vp_assume(emitted <= body_len);
        if (emitted) n_modification = 1;
        F_.pos = emitted;
        return;
    }
    if (*status == G_IO_STATUS_NORMAL) { VP_REACH("next part"); vp_assume(0); }
#endif
}
int vp_main(void)
{
    session(3, 1);
    vp_assume(inq[2]);
    P->state = P->processing_state = states[3];
    if (in_file) vp_assume(body_len > 0);     /* only a large body is kept in a file */
    VP_ASSERT(emit_replace_body_signal(C), "the body is sent");
    VP_ASSERT(emitted == body_len && n_modification > 0, "the whole body is sent, even an empty one");
#ifndef VP_A
    VP_ASSERT(vp_W >= body_len || em_w == body_w, "the bytes sent are the next ones of the body");
#endif
    VP_ASSERT(n_reply == 0 && n_error == 0, "nothing else is sent");
    if (in_file) VP_REACH("from the file"); else VP_REACH("from memory");
    return 0;
}
#else
static void vp_modification(const Ev *e) { VP_ASSERT(0, "the new body is sent at the end"); }
#endif

#ifdef CASE_replace_body
/* a milter at the end of the message (or elsewhere) gives a part of a new body */
int vp_main(void)
{
    gsize n; char *a; int first, ignored, i, had[4]; MilterManagerChildrenPrivate before; GList *l;
    session(3, 1);
    K[0].state = vp_bool("eom") ? states[3] : states[vp_below("at", 3)];
    P->state = P->processing_state = states[3];
    first = !P->replaced_body_for_each_child;
    if (!first) { vp_assume(inq[2]); P->end_of_message_chunk = NULL; P->end_of_message_size = eom_size = 0; P->replaced_body = TRUE; }
    for (i = 0; i < 4; i++) had[i] = inq[i];
    n = vp_below("chunk", LENMAX + 1);
    { int w; gsize at = first || !inq[2] ? vp_W : vp_W - body_len; a = bytes("chunk", n, at, &w, 1); live_w = w; }
    ignored = K[0].state != states[3] || K[0].evaluation;
    before = *P;
    cb_replace_body(CTX(0), a, n, C);
    VP_ASSERT(n_reply == 0 && n_error == 0 && n_answered == 0 && n_final == 0, "replacing is no answer");
    VP_ASSERT(K[0].n_quit == (K[0].state != states[3]), "a milter may change the message at its end only");
    if (ignored) {
        VP_ASSERT(P->body == before.body && P->body_file == before.body_file && P->end_of_message_chunk == before.end_of_message_chunk &&
                  P->end_of_message_size == before.end_of_message_size && P->replaced_body == before.replaced_body && P->command_queue == before.command_queue,
                  "it has no effect outside the end of the message or in evaluation mode");
        VP_REACH("ignored");
        return 0;
    }
    keep();
    if (first) check_body_kept(n, vp_W < n ? live_w : -1);
    else check_body_kept(body_len + n, vp_W < body_len ? body_w : vp_W < body_len + n ? live_w : -1);
    VP_ASSERT(P->end_of_message_chunk == NULL && P->end_of_message_size == 0, "nothing of the body replaced is left");
    VP_ASSERT(P->replaced_body && P->replaced_body_for_each_child, "it is known that the body is replaced");
    had[2] = 1;
    for (i = 0, l = P->command_queue; i < 4; i++) {
        if (!had[i]) continue;
        VP_ASSERT(l && l->data == GINT_TO_POINTER(cmds[i]), "the next milters get the new body, where it belongs");
        vp_assume(l != NULL);
        l = l->next;
    }
    VP_ASSERT(!l, "and nothing else");
    VP_ASSERT(P->headers == H && P->original_headers == H && P->command_waiting_child_queue->data == (gpointer)&K[0], "all else stays");
    if (first) VP_REACH("first part"); else VP_REACH("next part");
    return 0;
}
#endif
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
