/* TUS: milter/core/milter-command-encoder.c */
/* Contracts of the milter command encoder (MTA/manager -> milter). */
#include "vp.h"
#include "milter/core/milter-encoder.c"
#include "milter-command-encoder.h"

/* ghost option */
static guint32 opt_version, opt_action, opt_step;
static int opt_object;
guint32 milter_option_get_version(MilterOption *o) { return opt_version; }
MilterActionFlags milter_option_get_action(MilterOption *o) { return opt_action; }
MilterStepFlags milter_option_get_step(MilterOption *o) { return opt_step; }

/* contract of inet_ntop: some NUL-terminated text, a function of the address */
static char ntop_text[64];
static gsize ntop_len;
static int ntop_af;
static const void *ntop_src;
#ifndef VP_N
const char *inet_ntop(int af, const void *src, char *dst, socklen_t size)
{
    gsize i;
    ntop_af = af; ntop_src = src;
    __CPROVER_assert(size >= (af == AF_INET ? INET_ADDRSTRLEN : INET6_ADDRSTRLEN),
                     "VP inet_ntop buffer is large enough");
    for (i = 0; i <= ntop_len; i++) dst[i] = ntop_text[i];
    return dst;
}
#endif

static MilterEncoderPrivate enc_priv;
static MilterCommandEncoder enc_obj;
static const gchar *packet;
static gsize packet_size;

void vp_on_emit(VpEmit *e) { }

static MilterCommandEncoder *setup(void)
{
    MilterCommandEncoder *e = &enc_obj;
    vp_witness();
    vp_set_private(e, MILTER_TYPE_ENCODER, &enc_priv);
    enc_priv.buffer = g_string_new(NULL);
    enc_priv.tag = vp_u32("tag");
    /* history: the encoder may hold a previous packet of any content */
    {
        gsize n = vp_u8("previous");
        int used = vp_bool("used");
        char *b;
#ifdef VP_A
        vp_assume(n <= 200);
        b = vp_block("prev", n);
#else
        vp_assume(n <= 3);
        b = vp_block("prev", 3);
#endif
        g_string_append_len(enc_priv.buffer, b, used ? n : 0);
        if (used) g_string_prepend_len(enc_priv.buffer, "\1\2\3\4", 4);
    }
    return e;
}

/* the postcondition every encoder shares: *packet is exactly be32(n) ++ body */
static void check_packet(const VpSpec *s)
{
    guint32 n = (guint32)s->len;
    VP_ASSERT(packet != NULL, "a packet is produced");
    VP_ASSERT(packet_size == s->len + 4, "packet size is 4 + payload length");
    vp_assume(packet_size == s->len + 4);
    VP_ASSERT(vp_gs_byte(packet, 0) == ((n >> 24) & 0xff) && vp_gs_byte(packet, 1) == ((n >> 16) & 0xff) &&
              vp_gs_byte(packet, 2) == ((n >> 8) & 0xff) && vp_gs_byte(packet, 3) == (n & 0xff),
              "length prefix is the payload length in network byte order");
    if (s->w < s->len)
        VP_ASSERT(vp_gs_byte(packet, 4 + s->w) == s->wb, "payload byte");
    if (s->w == 0) VP_REACH("first payload byte");
    VP_REACH("postcondition");
}

static MilterCommandEncoder *E;
static char *rank_key[2];
static VpSpec S;

int vp_main(void)
{
    E = setup();
    vp_spec_init(&S);
#if defined(CASE_negotiate)
    opt_version = vp_u32("version"); opt_action = vp_u32("action"); opt_step = vp_u32("step");
    {
        MilterOption *o = vp_bool("option") ? (MilterOption *)&opt_object : NULL;
        milter_command_encoder_encode_negotiate(E, &packet, &packet_size, o);
        vp_spec_byte(&S, 'O');
        if (o) {
            vp_spec_be32(&S, opt_version); vp_spec_be32(&S, opt_action); vp_spec_be32(&S, opt_step);
        }
    }
#elif defined(CASE_helo)
    { char *a = vp_cstr("fqdn");
      milter_command_encoder_encode_helo(E, &packet, &packet_size, a);
      vp_spec_byte(&S, 'H'); vp_spec_strz(&S, a); }
#elif defined(CASE_envelope_from)
    { char *a = vp_cstr("from");
      milter_command_encoder_encode_envelope_from(E, &packet, &packet_size, a);
      vp_spec_byte(&S, 'M'); vp_spec_strz(&S, a); }
#elif defined(CASE_envelope_recipient)
    { char *a = vp_cstr("to");
      milter_command_encoder_encode_envelope_recipient(E, &packet, &packet_size, a);
      vp_spec_byte(&S, 'R'); vp_spec_strz(&S, a); }
#elif defined(CASE_unknown)
    { char *a = vp_cstr("command");
      milter_command_encoder_encode_unknown(E, &packet, &packet_size, a);
      vp_spec_byte(&S, 'U'); vp_spec_strz(&S, a); }
#elif defined(CASE_data)
    milter_command_encoder_encode_data(E, &packet, &packet_size);
    vp_spec_byte(&S, 'T');
#elif defined(CASE_end_of_header)
    milter_command_encoder_encode_end_of_header(E, &packet, &packet_size);
    vp_spec_byte(&S, 'N');
#elif defined(CASE_abort)
    milter_command_encoder_encode_abort(E, &packet, &packet_size);
    vp_spec_byte(&S, 'A');
#elif defined(CASE_quit)
    milter_command_encoder_encode_quit(E, &packet, &packet_size);
    vp_spec_byte(&S, 'Q');
#elif defined(CASE_header)
    { char *a = vp_cstr("name"), *b = vp_cstr("value");
      milter_command_encoder_encode_header(E, &packet, &packet_size, a, b);
      vp_spec_byte(&S, 'L'); vp_spec_strz(&S, a); vp_spec_strz(&S, b); }
#elif defined(CASE_body)
    {
#ifdef VP_A
        gsize n = vp_u64("n"); vp_assume(n <= VP_AMAX);
#else
        gsize n = vp_below("n", 7);
#endif
        char *b = vp_block("chunk", n);
        gsize packed = 12345, *pp = vp_bool("want") ? &packed : NULL;
        gsize m = n > MILTER_CHUNK_SIZE ? MILTER_CHUNK_SIZE : n;
        milter_command_encoder_encode_body(E, &packet, &packet_size, b, n, pp);
        vp_spec_byte(&S, 'B'); vp_spec_bytes(&S, b, m);
        VP_ASSERT(packed == (pp ? m : 12345), "reported size is what the packet carries");
        VP_ASSERT(m >= 1 || n == 0, "progress: a non-empty chunk is consumed");
    }
#elif defined(CASE_end_of_message)
    {
#ifdef VP_A
        gsize n = vp_u64("n"); vp_assume(n <= VP_AMAX);
#else
        gsize n = vp_below("n", 5);
#endif
        char *b = vp_bool("null") ? NULL : vp_block("chunk", n);
        if (!b && vp_bool("zero")) n = 0;
        milter_command_encoder_encode_end_of_message(E, &packet, &packet_size, b, n);
        vp_spec_byte(&S, 'E');
        if (b) vp_spec_bytes(&S, b, n);
    }
#elif defined(CASE_connect_inet) || defined(CASE_connect_inet6)
    {
        char *host = vp_cstr("host");
#ifdef CASE_connect_inet
        struct sockaddr_in a; int af = AF_INET; gsize max = INET_ADDRSTRLEN - 1;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET; a.sin_port = vp_u16("port"); a.sin_addr.s_addr = vp_u32("addr");
#else
        struct sockaddr_in6 a; int af = AF_INET6; gsize max = INET6_ADDRSTRLEN - 1;
        guint i;
        memset(&a, 0, sizeof a);
        a.sin6_family = AF_INET6; a.sin6_port = vp_u16("port");
        for (i = 0; i < 16; i++) a.sin6_addr.s6_addr[i] = vp_u8("addr");
#endif
        guint8 *pb;
        gsize k;
#ifdef VP_N
        inet_ntop(af, af == AF_INET ? (void *)((char *)&a + 4) : (void *)((char *)&a + 8), ntop_text, sizeof ntop_text);
        ntop_len = strlen(ntop_text);
#else
        ntop_len = nondet_vp_u8();
#ifdef VP_B
        max = 2;
#endif
        vp_assume(ntop_len >= 1 && ntop_len <= max);
        for (k = 0; k < max; k++) { ntop_text[k] = nondet_vp_u8(); if (k < ntop_len) vp_assume(ntop_text[k] != 0); else ntop_text[k] = 0; }
        ntop_text[max] = 0;
#endif
        milter_command_encoder_encode_connect(E, &packet, &packet_size, host,
                                              (struct sockaddr *)&a, sizeof a);
#ifndef VP_N
        VP_ASSERT(ntop_af == af, "the address text is rendered in its own family");
#ifdef CASE_connect_inet
        VP_ASSERT(*(const guint32 *)ntop_src == a.sin_addr.s_addr, "the address rendered is the peer's");
#else
        VP_ASSERT(ntop_src == (const void *)&a.sin6_addr, "the address rendered is the peer's");
#endif
#endif
        vp_spec_byte(&S, 'C'); vp_spec_strz(&S, host);
#ifdef CASE_connect_inet
        vp_spec_byte(&S, '4'); pb = (guint8 *)&a.sin_port;
#else
        vp_spec_byte(&S, '6'); pb = (guint8 *)&a.sin6_port;
#endif
        vp_spec_byte(&S, pb[0]); vp_spec_byte(&S, pb[1]);
#ifdef CASE_connect_inet6
        vp_spec_bytes(&S, "IPv6:", 5);
#endif
        vp_spec_bytes(&S, ntop_text, ntop_len); vp_spec_byte(&S, 0);
    }
#elif defined(CASE_connect_unix)
    {
        static struct sockaddr_un a;
        char *host = vp_cstr("host");
        gsize n = vp_below("n", 3), k;
        a.sun_family = AF_UNIX;
        for (k = 0; k < 3; k++) { a.sun_path[k] = vp_u8nz("path"); if (k >= n) a.sun_path[k] = 0; }
        milter_command_encoder_encode_connect(E, &packet, &packet_size, host,
                                              (struct sockaddr *)&a, sizeof a);
        vp_spec_byte(&S, 'C'); vp_spec_strz(&S, host); vp_spec_byte(&S, 'L');
        vp_spec_byte(&S, 0); vp_spec_byte(&S, 0);
        vp_spec_bytes(&S, a.sun_path, n); vp_spec_byte(&S, 0);
    }
#elif defined(CASE_connect_unknown)
    {
        static struct sockaddr a;
        char *host = vp_cstr("host");
        a.sa_family = vp_u16("family");
        vp_assume(a.sa_family != AF_INET && a.sa_family != AF_INET6 && a.sa_family != AF_UNIX);
        milter_command_encoder_encode_connect(E, &packet, &packet_size, host, &a, sizeof a);
        vp_spec_byte(&S, 'C'); vp_spec_strz(&S, host); vp_spec_byte(&S, 'U');
    }
#elif defined(CASE_define_macro0) || defined(CASE_define_macro1) || defined(CASE_define_macro2) || defined(CASE_define_macro_none)
    {
        /* 0, 1 or 2 macros per table; names and values of any length.  The
         * table's iteration order is arbitrary; the packet's is sorted. */
#if defined(CASE_define_macro1)
        const guint n = 1;
#elif defined(CASE_define_macro2)
        const guint n = 2;
#else
        const guint n = 0;
#endif
        guint i, ctx = vp_u8("context");
        char *k[2] = {0, 0}, *v[2] = {0, 0};
#ifdef CASE_define_macro_none
        GHashTable *t = NULL;
#else
        GHashTable *t = g_hash_table_new(g_str_hash, g_str_equal);
#endif
        for (i = 0; i < n; i++) {
            char *val;
#ifndef VP_A
            if (n == 2) {       /* bounded: sort keys are concrete */
                k[i] = i == 0 ? vp_cstr_n("key", 2) : strdup("{b}");
                if (i == 0) vp_assume(k[0][0] == 'a');
            } else
#endif
            k[i] = vp_cstr("key");
            val = vp_cstr("value");
            v[i] = vp_bool("novalue") ? NULL : val;
            vp_assume(k[i][0] != '\0');
            g_hash_table_insert(t, k[i], v[i]);
#ifdef VP_A
            rank_key[i] = k[i];
#endif
        }
        /* two keys: k[0] sorts first without loss of generality (the table's
         * iteration order is arbitrary); keys that sort equal have no
         * specified order */
        milter_command_encoder_encode_define_macro(E, &packet, &packet_size, ctx, t);
        vp_spec_byte(&S, 'D'); vp_spec_byte(&S, ctx);
        for (i = 0; i < n; i++) {
            char *kk = k[i], *vv = v[i];
            int wrap = kk[0] != '{' && vp_len(kk) > 1;
            if (wrap) vp_spec_byte(&S, '{');
            vp_spec_str(&S, kk);
            if (wrap) vp_spec_byte(&S, '}');
            vp_spec_byte(&S, 0);
            if (vv) vp_spec_str(&S, vv);
            vp_spec_byte(&S, 0);
        }
    }
#endif
    check_packet(&S);
    return 0;
}
#if defined(VP_A)
#define VP_RANK_ORDER(s) (__CPROVER_same_object(s, rank_key[1]) ? 2 : 1)
#endif
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
