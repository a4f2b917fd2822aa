/* TUS-A: milter/core/milter-command-decoder.c */
/* TUS: milter/core/milter-command-decoder.c */
/* CUT: milter/core/milter-command-decoder.c decode_define_macros 0 */
/* Contracts of the milter command decoder (MTA -> manager/milter): for every
 * packet either exactly one signal with exactly the packet's content, or
 * rejection without any signal. */
#include "vp_dec.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include "milter-command-decoder.h"

static int accept_, kind;       /* the specification's verdict */
static gsize o1, o2;            /* offsets of the text arguments */

/* contract of inet_pton: a partial function of the text */
static int pton_ok, pton_calls; static guint8 pton_addr[16]; static int pton_af; static const char *pton_text;
int vp_inet_pton(int af, const char *src, void *dst)
{
    int i;
    pton_calls++; pton_af = af; pton_text = src;
    if (!pton_ok) return 0;
    for (i = 0; i < (af == AF_INET ? 4 : 16); i++) ((guint8 *)dst)[i] = pton_addr[i];
    return 1;
}

#ifdef VP_A
/* Loop invariant of decode_define_macros: at every record boundary i, the
 * packet is well formed iff its remaining records are (accept_), and the table
 * holds exactly the records before i.  One arbitrary iteration is executed. */
static GHashTable *cut_table; static int cut_done; static gsize cut_i;
void vp_cut_macros(int *phase, gint *i, gint length, const gchar *buffer, GHashTable *macros)
{
    static gssize k, v = -1;
    if (*phase == 0) {
        VP_ASSERT(*i == 0 && length == (gint)N - 2 && buffer == P + 2, "the macros start after the stage byte");
        VP_ASSERT(g_hash_table_size(macros) == 0, "the table starts empty");
        cut_table = macros;
        cut_i = nondet_vp_u32();
        vp_assume(cut_i <= (gsize)length);
        vp_assume(VP_IMPLIES(cut_i == (gsize)length, accept_));
        *i = (gint)cut_i;
        vp_retrack(2 + cut_i);
        cut_done = *i == length;
        k = vp_first_nul(P + 2 + cut_i, N - 2 - cut_i);
        if (k > 0) v = vp_first_nul(P + 2 + cut_i + k + 1, N - 2 - cut_i - k - 1);
        vp_assume(VP_IMPLIES(accept_ && cut_i < (gsize)length, k > 0 && v >= 0));
    } else {
        int br = P[2 + cut_i] == '{' && P[2 + cut_i + k - 1] == '}';
        VP_ASSERT(k > 0 && v >= 0, "the loop goes on after a well-formed record only");
        VP_ASSERT(*i == (gint)cut_i + k + 1 + v + 1, "the next record follows");
        VP_ASSERT(macros == cut_table && g_hash_table_size(macros) == 1 &&
                  vp_is_copy(vp_ht_key(macros, 0), P + 2 + cut_i + br, k - 2 * br) &&
                  vp_is_copy(vp_ht_value(macros, 0), P + 2 + cut_i + k + 1, v),
                  "each record adds its name, without braces, and its value");
        VP_REACH("iteration");
        vp_assume(0);
    }
    (*phase)++;
}
#endif
static void vp_emitted(VpEmit *e)
{
    n_emitted++;
    VP_ASSERT(accept_, "nothing is reported for a malformed packet");
#if defined(CASE_helo)
    VP_ASSERT(vp_is(e, "helo") && is_text(e->a[0].p, 1), "HELO reported with its name");
#elif defined(CASE_envelope_from)
    VP_ASSERT(vp_is(e, "envelope-from") && is_text(e->a[0].p, 1), "MAIL reported with its sender");
#elif defined(CASE_envelope_recipient)
    VP_ASSERT(vp_is(e, "envelope-recipient") && is_text(e->a[0].p, 1), "RCPT reported with its recipient");
#elif defined(CASE_unknown)
    VP_ASSERT(vp_is(e, "unknown") && is_text(e->a[0].p, 1), "unknown command reported with its text");
#elif defined(CASE_data)
    VP_ASSERT(vp_is(e, "data"), "DATA reported");
#elif defined(CASE_end_of_header)
    VP_ASSERT(vp_is(e, "end-of-header"), "end of header reported");
#elif defined(CASE_abort)
    VP_ASSERT(vp_is(e, "abort"), "abort reported");
#elif defined(CASE_quit)
    VP_ASSERT(vp_is(e, "quit"), "quit reported");
#elif defined(CASE_header)
    VP_ASSERT(vp_is(e, "header") && is_text(e->a[0].p, 1) && is_text(e->a[1].p, o2), "header reported with its name and value");
#elif defined(CASE_body)
    VP_ASSERT(vp_is(e, "body"), "body reported");
    VP_ASSERT(e->a[1].u == N - 1, "body chunk length");
    VP_ASSERT(N == 1 || VP_UNCUT(e, 0), "the body chunk is not cut at a NUL byte");
    if (vp_W < N - 1) VP_ASSERT(((const char *)e->a[0].p)[vp_W] == P[1 + vp_W], "body chunk byte");
#elif defined(CASE_end_of_message)
    VP_ASSERT(vp_is(e, "end-of-message"), "end of message reported");
    VP_ASSERT(e->a[1].u == N - 1, "last chunk length");
    VP_ASSERT(N == 1 || VP_UNCUT(e, 0), "the last chunk is not cut at a NUL byte");
    if (N == 1) VP_ASSERT(e->a[0].p == NULL, "no last chunk");
    if (vp_W < N - 1) VP_ASSERT(((const char *)e->a[0].p)[vp_W] == P[1 + vp_W], "last chunk byte");
#elif defined(CASE_negotiate)
    VP_ASSERT(vp_is(e, "negotiate") && e->a[0].p == &vp_opt && vp_opt.live, "negotiation reported");
    VP_ASSERT(vp_opt.version == be32(P + 1) && vp_opt.action == be32(P + 5) && vp_opt.step == be32(P + 9),
              "negotiated version, actions and steps");
#elif defined(CASE_connect_inet) || defined(CASE_connect_inet6) || defined(CASE_connect_unix) || defined(CASE_connect_unknown) || defined(CASE_connect_other)
    VP_ASSERT(vp_is(e, "connect") && is_text(e->a[0].p, 1), "connect reported with its host name");
    {
        struct sockaddr *a = e->a[1].p;
#if defined(CASE_connect_inet)
        struct sockaddr_in *in = (struct sockaddr_in *)a;
        VP_ASSERT(e->a[2].u == sizeof(*in) && in->sin_family == AF_INET, "IPv4 address");
        VP_ASSERT(pton_calls == 1 && pton_af == AF_INET && is_text(pton_text, o2 + 3), "the address text of the packet is parsed");
        VP_ASSERT(memcmp(&in->sin_port, P + o2 + 1, 2) == 0 && memcmp(&in->sin_addr, pton_addr, 4) == 0, "address and port of the packet");
#elif defined(CASE_connect_inet6)
        struct sockaddr_in6 *in = (struct sockaddr_in6 *)a;
        VP_ASSERT(e->a[2].u == sizeof(*in) && in->sin6_family == AF_INET6, "IPv6 address");
        VP_ASSERT(pton_calls == 1 && pton_af == AF_INET6, "the address text of the packet is parsed");
        VP_ASSERT(is_text(pton_text, o2 + 3 + (!strncmp(P + o2 + 3, "IPv6:", 5) ? 5 : 0)), "the address text of the packet is parsed");
        VP_ASSERT(memcmp(&in->sin6_port, P + o2 + 1, 2) == 0 && memcmp(&in->sin6_addr, pton_addr, 16) == 0, "address and port of the packet");
#elif defined(CASE_connect_unix)
        struct sockaddr_un *un = (struct sockaddr_un *)a;
        VP_ASSERT(e->a[2].u == sizeof(*un) && un->sun_family == AF_UNIX, "UNIX address");
#ifdef VP_A
        gsize n = vp_len(P + o2 + 3);
        VP_ASSERT(un->sun_path[n] == '\0' && (vp_W >= n || un->sun_path[vp_W] == P[o2 + 3 + vp_W]), "path of the packet");
#else
        VP_ASSERT(strcmp(un->sun_path, P + o2 + 3) == 0, "path of the packet");
#endif
#else
        VP_ASSERT(e->a[2].u == sizeof(*a) && a->sa_family == AF_UNSPEC, "unspecified address");
#endif
    }
#elif defined(CASE_define_macro)
    {
        GHashTable *t = e->a[1].p;
        gsize i = 2, n = 0, last[8];
        VP_ASSERT(vp_is(e, "define-macro") && e->a[0].u == (guint)(guint8)P[1], "macros reported for their stage");
#ifdef VP_A
        VP_ASSERT(t == cut_table && cut_done, "the table with every macro of the packet is reported");
        if (0)
#endif
        /* walk the packet: later definitions of a name win */
        while (i < N) {
            gsize k = i, kl, v;
            int j, dup = 0;
            kl = vp_first_nul(P + k, N - k);
            v = k + kl + 1;
            if (P[k] == '{' && P[k + kl - 1] == '}') { P[k + kl - 1] = '\0'; k++; }
            for (j = 0; j < (int)n; j++)
                if (vp_streq(P + last[j], P + k)) dup = 1;
            if (!dup && n < 8) last[n++] = k;
            i = v + vp_first_nul(P + v, N - v) + 1;
            {
                /* is it overridden later in the packet? */
                gsize m = i; int over = 0;
                while (m < N) {
                    gsize ml = vp_first_nul(P + m, N - m);
                    gsize br = (P[m] == '{' && P[m + ml - 1] == '}') ? 1 : 0;
                    gsize q; int same = 1;
                    for (q = 0; q < ml - 2 * br; q++) if (P[m + br + q] != P[k + q]) { same = 0; break; }
                    if (same && P[k + q] == '\0') over = 1;
                    m += ml + 1; m += vp_first_nul(P + m, N - m) + 1;
                }
                if (!over) {
                    const char *val = g_hash_table_lookup(t, P + k);
                    VP_ASSERT(val != NULL && vp_streq(val, P + v), "each macro has its value");
                }
            }
        }
        VP_ASSERT(g_hash_table_size(t) == n, "no other macro is reported");
    }
#else
    VP_ASSERT(0, "no signal for an unknown command byte");
#endif
#if !defined(CASE_other) && !defined(CASE_connect_other)
    VP_REACH("signal");
#endif
}

#ifdef VP_N     /* sampling: steer instead of rejecting */
#define VP_FAMILY(f) do { if (getenv("VP_RANDOM")) P[o2] = (f); vp_assume(P[o2] == (f)); } while (0)
#else
#define VP_FAMILY(f) vp_assume(P[o2] == (f))
#endif
static MilterCommandDecoder obj;
static MilterCommandDecoderClass klass;

int vp_main(void)
{
    int i;
    gssize r;
    vp_witness();
    vp_packet();
#if defined(CASE_helo)
    VP_PUT(0, 'H');
#elif defined(CASE_envelope_from)
    VP_PUT(0, 'M');
#elif defined(CASE_envelope_recipient)
    VP_PUT(0, 'R');
#elif defined(CASE_unknown)
    VP_PUT(0, 'U');
#elif defined(CASE_data)
    VP_PUT(0, 'T');
#elif defined(CASE_end_of_header)
    VP_PUT(0, 'N');
#elif defined(CASE_abort)
    VP_PUT(0, 'A');
#elif defined(CASE_quit)
    VP_PUT(0, 'Q');
#elif defined(CASE_header)
    VP_PUT(0, 'L');
#elif defined(CASE_body)
    VP_PUT(0, 'B');
#elif defined(CASE_end_of_message)
    VP_PUT(0, 'E');
#elif defined(CASE_negotiate)
    VP_PUT(0, 'O');
#elif defined(CASE_define_macro)
    VP_PUT(0, 'D');
#if defined(VP_N)
    if (N > 1 && getenv("VP_RANDOM")) {
        gsize j;
        P[1] = "CHMRTLNBEUx"[(guint8)P[1] % 11];
        for (j = 2; j < N; j++) P[j] = "{}ab\0\0"[(guint8)P[j] % 6];
        if ((guint8)P[2] & 1) P[N - 1] = 0;
    }
#endif
#elif defined(CASE_other)
    for (i = 0; i < 14; i++) vp_assume(P[0] != "HMRUTNAQLBEODC"[i]);
#else
    VP_PUT(0, 'C');
#endif
#if defined(CASE_helo) || defined(CASE_envelope_from) || defined(CASE_envelope_recipient) || defined(CASE_unknown)
    accept_ = vp_first_nul(P + 1, N - 1) > 0;
#elif defined(CASE_data) || defined(CASE_end_of_header) || defined(CASE_abort) || defined(CASE_quit)
    accept_ = N == 1;
#elif defined(CASE_header)
    r = vp_first_nul(P + 1, N - 1);
    o2 = r + 2;
    accept_ = r > 0 && vp_first_nul(P + o2, N - o2) >= 0;
#elif defined(CASE_body)
    accept_ = 1;
#elif defined(CASE_end_of_message)
    accept_ = 1;
#elif defined(CASE_negotiate)
    accept_ = N == 13;
#elif defined(CASE_define_macro)
    {
        gsize j = 2;
        accept_ = N >= 2;
        if (accept_) {
            for (i = 0; i < 10; i++) if (P[1] == "CHMRTLNBEU"[i]) break;
            accept_ = i < 10;
        }
#ifdef VP_A             /* tied to the packet by the loop invariant */
        { int any = vp_bool("wf"); accept_ = accept_ && any; }
        if (0)
#endif
        while (accept_ && j < N) {
            r = vp_first_nul(P + j, N - j);
            if (r <= 0) { accept_ = 0; break; }
            j += r + 1;
            r = vp_first_nul(P + j, N - j);
            if (r < 0) { accept_ = 0; break; }
            j += r + 1;
        }
    }
#elif defined(CASE_other)
    accept_ = 0;
#else
    r = vp_first_nul(P + 1, N - 1);
    o2 = r + 2;                 /* the family byte */
    accept_ = r > 0 && o2 < N;
    pton_ok = vp_bool("pton_ok");
    for (i = 0; i < 16; i++) pton_addr[i] = vp_u8("pton");
#if defined(CASE_connect_other)
    if (accept_) vp_assume(P[o2] != '4' && P[o2] != '6' && P[o2] != 'L' && P[o2] != 'U');
    accept_ = 0;
#elif defined(CASE_connect_unknown)
    if (accept_) VP_FAMILY('U');
    accept_ = accept_ && N == o2 + 1;
#else
    {
#if defined(CASE_connect_inet)
        const char f = '4';
#elif defined(CASE_connect_inet6)
        const char f = '6';
#else
        const char f = 'L';
#endif
        if (accept_) VP_FAMILY(f);
        accept_ = accept_ && N > o2 + 3;
        if (accept_) {
            r = vp_first_nul(P + o2 + 3, N - o2 - 3);
            accept_ = r > 0;
            if (f == 'L') accept_ = accept_ && r < (gssize)sizeof(((struct sockaddr_un *)0)->sun_path);
            else accept_ = accept_ && pton_ok;
        }
    }
#endif
#endif
#ifndef VP_A
    vp_class_init(milter_decoder_get_type(), &klass.parent_class);
#endif
    vp_class_init(milter_command_decoder_get_type(), &klass);
#if !defined(CASE_other) && !defined(CASE_connect_other)
    if (accept_) VP_REACH("a well-formed packet exists");
#endif
#if !defined(CASE_body) && !defined(CASE_end_of_message)
    if (!accept_) VP_REACH("a malformed packet exists");
#endif
    vp_decode_run((MilterDecoder *)&obj, &klass.parent_class);
    VP_ASSERT(!!ok == !!accept_, "accepted exactly when well formed");
    VP_ASSERT(n_emitted == (accept_ ? 1 : 0), "one signal for a well-formed packet, none otherwise");
    VP_ASSERT(VP_IMPLIES(ok, err == NULL), "no error for a well-formed packet");
#ifndef VP_A
    VP_ASSERT(VP_IMPLIES(!ok, err != NULL), "a malformed packet is reported as an error");
#endif
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
