/* TUS: milter/core/milter-reply-encoder.c milter/core/milter-utils.c */
/* CUT: milter/core/milter-reply-encoder.c encode_macros_request 0 */
/* Contracts of the milter reply encoder (manager/milter -> MTA). */
#include "vp.h"
#include "milter/core/milter-encoder.c"
#include "milter-reply-encoder.h"
#include "milter-utils.h"

/* ghost option */
static guint32 opt_version, opt_action, opt_step;
static int opt_object, req_object;
guint32 milter_option_get_version(MilterOption *o) { return opt_version; }
MilterActionFlags milter_option_get_action(MilterOption *o) { return opt_action; }
MilterStepFlags milter_option_get_step(MilterOption *o) { return opt_step; }

static MilterEncoderPrivate enc_priv;
static MilterReplyEncoder enc_obj;
static const gchar *packet;
static gsize packet_size;
static MilterReplyEncoder *E;
static VpSpec S;

void vp_on_emit(VpEmit *e) { }

static void setup(void)
{
    gsize n = vp_u8("previous");
    int used = vp_bool("used");
    char *b;
    E = &enc_obj;
    vp_witness();
    vp_set_private(E, MILTER_TYPE_ENCODER, &enc_priv);
    enc_priv.buffer = g_string_new(NULL);
    enc_priv.tag = vp_u32("tag");
    /* history: the encoder may hold a previous packet of any content */
    vp_assume(n <= 200);
    b = vp_block("prev", n);
    g_string_append_len(enc_priv.buffer, b, used ? n : 0);
    if (used) g_string_prepend_len(enc_priv.buffer, "\1\2\3\4", 4);
    packet = (gchar *)&enc_obj; packet_size = 77;
}

/* the postcondition every encoder shares: *packet is exactly be32(n) ++ body */
static void check_packet(const VpSpec *s)
{
    guint32 n = (guint32)s->len;
    VP_ASSERT(packet != NULL, "a packet is produced");
    VP_ASSERT(packet_size == s->len + 4, "packet size is 4 + payload length");
    vp_assume(packet_size == s->len + 4);
    VP_ASSERT(vp_gs_byte(packet, 0) == ((n >> 24) & 0xff) && vp_gs_byte(packet, 1) == ((n >> 16) & 0xff) &&
              vp_gs_byte(packet, 2) == ((n >> 8) & 0xff) && vp_gs_byte(packet, 3) == (n & 0xff),
              "length prefix is the payload length in network byte order");
    if (s->w < s->len)
        VP_ASSERT(vp_gs_byte(packet, 4 + s->w) == s->wb, "payload byte");
    if (s->w == 0) VP_REACH("first payload byte");
    VP_REACH("postcondition");
}
/* arguments that make no reply: no packet at all */
static void check_none(void)
{
    VP_ASSERT(packet == NULL && packet_size == 0, "nothing to send gives no packet");
    VP_REACH("no packet");
}
static char *maybe(const char *tag)
{ char *s = vp_cstr(tag); return vp_bool(tag) ? NULL : s; }
#define EMPTY(s) ((s) == NULL || (s)[0] == '\0')

/* what the protocol says about macro stages (libmilter's SMFIM_*) */
static int stage_of(int c)
{
    switch (c) {
    case 'C': return 0;  case 'H': return 1;  case 'M': return 2;  case 'R': return 3;
    case 'T': return 4;  case 'E': return 5;  case 'N': return 6;
    }
    return -1;
}

#ifdef CASE_negotiate_macros
#ifdef VP_A
static void ghost_buffer(void);         /* the buffer holds exactly S */
static void check_ghost_buffer(void);
static int emitted_stage;
/* the requests: any number of entries.  Contract of the iteration: whatever
 * has been encoded so far (an arbitrary S), one more entry appends its bytes */
void milter_macros_requests_foreach(MilterMacrosRequests *r, MilterMacrosRequestFunc f, gpointer u)
{
    VP_ASSERT(r == (gpointer)&req_object, "the given requests are encoded");
    check_ghost_buffer();
    S.len = nondet_vp_u64(); vp_assume(S.len >= 1 && S.len <= VP_AMAX); S.wb = nondet_vp_u8();
    ghost_buffer();
    if (vp_bool("one more")) {
        guint command = nondet_vp_u32();
        GList *l = vp_bool("no symbol") ? NULL : g_list_append(NULL, vp_cstr("symbol"));
        if (l && vp_bool("two")) l = g_list_append(l, vp_cstr("symbol"));
        emitted_stage = stage_of(command);
        if (emitted_stage >= 0) { vp_spec_be32(&S, emitted_stage); if (l) vp_spec_str(&S, l->data); }
        f(command, l, u);
        if (emitted_stage >= 0) { vp_spec_byte(&S, 0); VP_REACH("entry"); }
        check_ghost_buffer();
    }
}
/* symbols after the first: " " and the symbol each, in order; any number.
 * "symbols" is the next one to append */
void vp_cut_symbols(int *phase, GList **symbols)
{
    static GList *current;
    if (*phase == 0) {
        VP_REACH("symbols");
        /* entered with the second symbol (or none); the first is appended */
        check_ghost_buffer();
        S.len = nondet_vp_u64(); vp_assume(S.len >= 6 && S.len <= VP_AMAX); S.wb = nondet_vp_u8();
        ghost_buffer();
        current = NULL;
        if (vp_bool("more")) {
            current = g_list_append(NULL, vp_cstr("symbol"));
            if (vp_bool("and more")) g_list_append(current, vp_cstr("symbol"));
        }
        *symbols = current;
    } else {
        vp_spec_byte(&S, ' '); vp_spec_str(&S, current->data);
        check_ghost_buffer();
        VP_ASSERT(*symbols == current->next, "the symbols are encoded one after the other");
        VP_REACH("symbol");
        vp_assume(0);
    }
    (*phase)++;
}
#else
static int n_entries; static guint cmd[3]; static GList *sym[3];
void milter_macros_requests_foreach(MilterMacrosRequests *r, MilterMacrosRequestFunc f, gpointer u)
{
    int i;
    VP_ASSERT(r == (gpointer)&req_object, "the given requests are encoded");
    for (i = 0; i < n_entries; i++) f(cmd[i], sym[i], u);
}
#endif
#else
void milter_macros_requests_foreach(MilterMacrosRequests *r, MilterMacrosRequestFunc f, gpointer u) { VP_ASSERT(0, "no requests, no iteration"); }
#ifdef VP_A
void vp_cut_symbols(int *phase, GList **symbols) { }
#endif
#endif

#define SIMPLE(byte, call) { call(E, &packet, &packet_size); vp_spec_byte(&S, byte); check_packet(&S); }
int vp_main(void)
{
    setup();
    vp_spec_init(&S);
#if defined(CASE_negotiate)
    opt_version = vp_u32("version"); opt_action = vp_u32("action"); opt_step = vp_u32("step");
    {
        MilterOption *o = vp_bool("option") ? (MilterOption *)&opt_object : NULL;
        milter_reply_encoder_encode_negotiate(E, &packet, &packet_size, o, NULL);
        vp_spec_byte(&S, 'O');
        if (o) { vp_spec_be32(&S, opt_version); vp_spec_be32(&S, opt_action); vp_spec_be32(&S, opt_step); }
        check_packet(&S);
    }
#elif defined(CASE_negotiate_macros)
    opt_version = vp_u32("version"); opt_action = vp_u32("action"); opt_step = vp_u32("step");
    {
        MilterOption *o = vp_bool("option") ? (MilterOption *)&opt_object : NULL;
        vp_spec_byte(&S, 'O');
        if (o) { vp_spec_be32(&S, opt_version); vp_spec_be32(&S, opt_action); vp_spec_be32(&S, opt_step); }
#ifndef VP_A
        {
            static const char known[] = "CHMRTENXAD"; int i;
            n_entries = vp_below("entries", 3);
            for (i = 0; i < n_entries; i++) {
                int k, n = vp_below("symbols", 4), st;
                cmd[i] = known[vp_below("command", 10)];
                for (k = 0; k < n; k++) sym[i] = g_list_append(sym[i], vp_cstr("symbol"));
                st = stage_of(cmd[i]);
                if (st < 0) continue;
                vp_spec_be32(&S, st);
                for (k = 0; k < n; k++) { if (k) vp_spec_byte(&S, ' '); vp_spec_str(&S, g_list_nth_data(sym[i], k)); }
                vp_spec_byte(&S, 0);
            }
        }
#endif
        milter_reply_encoder_encode_negotiate(E, &packet, &packet_size, o, (gpointer)&req_object);
        check_packet(&S);
    }
#elif defined(CASE_simple)
    switch (vp_below("which", 9)) {
    case 0: SIMPLE('c', milter_reply_encoder_encode_continue); break;
    case 1: SIMPLE('t', milter_reply_encoder_encode_temporary_failure); break;
    case 2: SIMPLE('r', milter_reply_encoder_encode_reject); break;
    case 3: SIMPLE('a', milter_reply_encoder_encode_accept); break;
    case 4: SIMPLE('d', milter_reply_encoder_encode_discard); break;
    case 5: SIMPLE('p', milter_reply_encoder_encode_progress); break;
    case 6: SIMPLE('f', milter_reply_encoder_encode_connection_failure); break;
    case 7: SIMPLE('4', milter_reply_encoder_encode_shutdown); break;
    case 8: SIMPLE('s', milter_reply_encoder_encode_skip); break;
    }
#elif defined(CASE_reply_code)
    {
        char *code = maybe("code");
        milter_reply_encoder_encode_reply_code(E, &packet, &packet_size, code);
        if (!code) check_none();
        else { vp_spec_byte(&S, 'y'); vp_spec_strz(&S, code); check_packet(&S); }
    }
#elif defined(CASE_add_header) || defined(CASE_insert_header) || defined(CASE_change_header) || defined(CASE_delete_header)
    {
        char *name = maybe("name"), *value = maybe("value");
        guint32 index = vp_u32("index");
#if defined(CASE_add_header)
        milter_reply_encoder_encode_add_header(E, &packet, &packet_size, name, value);
        vp_spec_byte(&S, 'h');
#elif defined(CASE_insert_header)
        milter_reply_encoder_encode_insert_header(E, &packet, &packet_size, index, name, value);
        vp_spec_byte(&S, 'i'); vp_spec_be32(&S, index);
#elif defined(CASE_change_header)
        milter_reply_encoder_encode_change_header(E, &packet, &packet_size, name, index, value);
        vp_spec_byte(&S, 'm'); vp_spec_be32(&S, index);
#else
        value = NULL;
        milter_reply_encoder_encode_delete_header(E, &packet, &packet_size, name, index);
        vp_spec_byte(&S, 'm'); vp_spec_be32(&S, index);
#endif
        if (EMPTY(name)) check_none();
        else {
            vp_spec_strz(&S, name);
            if (value) vp_spec_str(&S, value);
            vp_spec_byte(&S, 0);
            check_packet(&S);
        }
    }
#elif defined(CASE_change_from) || defined(CASE_add_recipient)
    {
        char *who = maybe("who"), *params = maybe("parameters");
#if defined(CASE_change_from)
        milter_reply_encoder_encode_change_from(E, &packet, &packet_size, who, params);
        vp_spec_byte(&S, 'e');
#else
        milter_reply_encoder_encode_add_recipient(E, &packet, &packet_size, who, params);
        vp_spec_byte(&S, EMPTY(params) ? '+' : '2');
#endif
        if (EMPTY(who)) check_none();
        else {
            vp_spec_strz(&S, who);
            if (!EMPTY(params)) { vp_spec_strz(&S, params); }
            check_packet(&S);
        }
    }
#elif defined(CASE_delete_recipient) || defined(CASE_quarantine)
    {
        char *a = maybe("text");
#if defined(CASE_delete_recipient)
        milter_reply_encoder_encode_delete_recipient(E, &packet, &packet_size, a);
        vp_spec_byte(&S, '-');
#else
        milter_reply_encoder_encode_quarantine(E, &packet, &packet_size, a);
        vp_spec_byte(&S, 'q');
#endif
        if (EMPTY(a)) check_none();
        else { vp_spec_strz(&S, a); check_packet(&S); }
    }
#elif defined(CASE_replace_body)
    {
        gsize n = vp_u64("n"), packed = 12345, m;
        char *b;
#ifdef VP_A
        vp_assume(n <= VP_AMAX);
#else
        n %= (getenv("VP_RANDOM") && vp_bool("big")) ? 200000 : 12;
#endif
        b = vp_block("chunk", n);
        if (vp_bool("null")) b = NULL;
        m = n > MILTER_CHUNK_SIZE ? MILTER_CHUNK_SIZE : n;
        milter_reply_encoder_encode_replace_body(E, &packet, &packet_size, b, n, &packed);
        if (n > 0 && !b) { VP_ASSERT(packed == 0, "nothing was taken"); check_none(); }
        else {
            VP_ASSERT(packed == m && (m >= 1 || n == 0), "the part of the body the packet takes is reported; there is progress");
            vp_spec_byte(&S, 'b'); vp_spec_bytes(&S, b, m);
            check_packet(&S);
        }
    }
#endif
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
#if defined(VP_A) && defined(CASE_negotiate_macros)
static void ghost_buffer(void)
{
    VpGS *g = (VpGS *)enc_priv.buffer;
    g->g.len = S.len; g->prelen = 0; g->wb = vp_W < S.len ? S.wb : -1;
    if (vp_W >= S.len) S.wb = -1;
}
static void check_ghost_buffer(void)
{
    VpGS *g = (VpGS *)enc_priv.buffer;
    VP_ASSERT(g->g.len == S.len && g->prelen == 0, "length of what is encoded so far");
    VP_ASSERT(vp_W >= S.len || g->wb == S.wb, "bytes encoded so far");
    vp_assume(g->g.len == S.len && g->prelen == 0 && (vp_W >= S.len || g->wb == S.wb));
}
#endif
