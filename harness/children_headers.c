/* TUS: milter/core/milter-protocol.c milter/core/milter-headers.c milter/core/milter-utils.c */
/* Contract of the function that tells the MTA how the headers of the message
 * were changed (milter-manager-children.c emit_header_signals): an MTA that has
 * the headers it sent and applies the changes one after the other, as the milter
 * protocol defines them, ends with exactly the headers the milters left.
 *
 *  B/N  concrete lists: the headers as they came and as they were left, with the
 *       real header list functions */
#include "vp_children.h"
#include "milter/core/milter-headers.h"
MilterStepFlags milter_option_get_step(MilterOption *o) { return 0; }
MilterMacrosRequests *milter_macros_requests_new(void) { return NULL; }

#ifdef VP_N
#define MAXH 6
#else
#ifndef MAXH
#define MAXH 3
#endif
#endif
typedef struct { char n, v; } Pair;
static Pair mta[2 * MAXH + 1], end_[MAXH]; static int nm, ne;
static char names_[2 * MAXH][2], values_[2 * MAXH][2];
static struct { GObject o[4]; } obj_[3];
static struct { GList *l; } priv3_[3];      /* MilterHeadersPrivate */
#define OBJ(i) ((MilterHeaders *)&obj_[i])
static int n_new;
gpointer g_object_new(GType t, const gchar *p, ...) { vp_assume(n_new == 0); n_new++; return OBJ(2); }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char val(const char *v) { return v ? v[0] : 0; }

static int nth(const char *name, guint idx)
{
    int i, r = -1; guint k = 0;
    for (i = 0; i < nm; i++) if (up(mta[i].n) == up(name[0]) && ++k == idx && r < 0) r = i;
    return r;
}
static void put(int at, const char *n, const char *v)
{
    int i;
    VP_ASSERT(nm < 2 * MAXH, "no more headers are added than there are");
    vp_assume(nm < 2 * MAXH);
    for (i = nm; i > at; i--) mta[i] = mta[i - 1];
    mta[at].n = n[0]; mta[at].v = val(v); nm++;
}
static void vp_modification(const Ev *e)
{
    int i, j;
    switch (e->id) {
    case EV_INSERT_HEADER:
        VP_ASSERT((int)e->u <= nm, "a header is inserted among the headers");
        vp_assume((int)e->u <= nm);
        put(e->u, e->p0, e->p1);
        break;
    case EV_ADD_HEADER: put(nm, e->p0, e->p1); break;
    case EV_CHANGE_HEADER:
        i = nth(e->p0, e->u);
        VP_ASSERT(i >= 0, "a header that is there is changed");
        vp_assume(i >= 0);
        /* a change keeps the place of the header; it is written with the name given */
        mta[i].n = e->p0[0]; mta[i].v = val(e->p1);
        break;
    case EV_DELETE_HEADER:
        i = nth(e->p0, e->u);
        VP_ASSERT(i >= 0, "a header that is there is deleted");
        vp_assume(i >= 0);
        for (j = i; j < nm - 1; j++) mta[j] = mta[j + 1];
        nm--;
        break;
    default: VP_ASSERT(0, "only headers are changed");
    }
}
static int filled;
static void fill(MilterHeaders *h, int n, Pair *p)
{
    int i;
    for (i = 0; i < n; i++) {
        char *a = names_[filled], *b = values_[filled];
        filled++;
        a[0] = "abA"[vp_below("name", 3)]; b[0] = "123"[vp_below("value", 3)];
        p[i].n = a[0]; p[i].v = b[0];
        milter_headers_append_header(h, a, b);
    }
}
static int count(const Pair *p, int n, Pair x, int exact)
{
    int i, c = 0;
    for (i = 0; i < n; i++) if (up(p[i].n) == up(x.n) && p[i].v == x.v) c++;
    return c;
}
int vp_main(void)
{
    int i;
    C = (MilterManagerChildren *)&c_obj;
    P = &priv_;
    vp_set_private(C, MILTER_TYPE_MANAGER_CHILDREN, P);
    milter_manager_children_init(C);
    for (i = 0; i < 3; i++) vp_set_private(OBJ(i), MILTER_TYPE_HEADERS, &priv3_[i]);
    P->original_headers = OBJ(0); P->headers = OBJ(1);
#if defined(N0) && !defined(VP_N)
    nm = N0; ne = N1;
#else
    nm = vp_below("came", MAXH + 1); ne = vp_below("left", MAXH + 1);
#endif
    fill(OBJ(0), nm, mta);
    fill(OBJ(1), ne, end_);
    emit_header_signals(C);
    VP_ASSERT(nm == ne, "the MTA has as many headers as the milters left");
    for (i = 0; i < ne; i++)
        VP_ASSERT(count(mta, nm, end_[i], 0) == count(end_, ne, end_[i], 0), "the MTA has the headers the milters left");
    VP_ASSERT(n_reply == 0 && n_error == 0 && n_progress == 0, "and nothing else is told");
    VP_ASSERT(milter_headers_length(OBJ(1)) == (guint)ne && milter_headers_length(OBJ(0)) == (guint)(filled - ne), "the kept headers stay");
    VP_REACH("told");
    return 0;
}
#include "vp_gobject.c"
#include "vp_model.c"
#include "vp_containers.c"
