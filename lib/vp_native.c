/* native replay of a counterexample: feeds recorded nondeterministic values */
#include "vp.h"
static FILE *vp_in; static int vp_random; static guint64 vp_seed;
static int vp_reached;
void vp_native_assert(int c, const char *name, const char *file, int line)
{
    if (c) return;
    printf("VP-FAIL %s (%s:%d)\n", name, file, line);
    fflush(stdout);
    _exit(1);
}
void vp_native_reach(const char *name) { vp_reached++; }
void vp_native_assume(int c, const char *t)
{ if (!c) { printf("VP-ASSUME %s\n", t); fflush(stdout); _exit(77); } }
guint64 vp_native_next(const char *kind, int bits)
{
    char k[64]; unsigned long long v;
    if (vp_random) {
        guint64 z;
        vp_seed += 0x9E3779B97F4A7C15ull; z = vp_seed;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        z ^= z >> 31;
        if (bits <= 8) { return (z & 7) ? (z >> 8) % 4 : (z >> 16) & 0xff; }
        return (z & 3) ? (z >> 8) % 8 : (bits >= 64 ? z : z & ((1ull << bits) - 1));
    }
    if (!vp_in || fscanf(vp_in, "%63s %llu", k, &v) != 2) {
        if (getenv("VP_TRACE")) printf("VP-EXHAUSTED %s\n", kind);
        return 0;
    }
    if (strcmp(k, kind)) { printf("VP-DESYNC want %s got %s\n", kind, k); fflush(stdout); _exit(78); }
    return v;
}
guint64 vp_native_range(const char *kind, int bits, guint64 n)
{
    guint64 v = vp_native_next(kind, bits);
    if (vp_random) return v % n;
    vp_native_assume(v < n, "range");
    return v;
}
guint8 vp_native_nonzero(void)
{
    guint8 v = vp_native_next("vp_u8", 8);
    if (vp_random) return v ? v : 'a';
    vp_native_assume(v != 0, "nonzero");
    return v;
}
char *vp_block(const char *tag, gsize n)
{ char *p = malloc(n ? n : 1); gsize i; for (i = 0; i < n; i++) p[i] = (char)vp_u8(tag); return p; }
char *vp_cstr_n(const char *tag, gsize n)
{
    char *p = malloc(n + 1); gsize i;
    for (i = 0; i < n; i++) { p[i] = (char)vp_u8nz(tag); }
    p[n] = 0; return p;
}
char *vp_cstr(const char *tag)
{
    gsize n = vp_below(tag, VP_STRMAX + 1), i; char *p, *q = malloc(VP_STRMAX + 1);
    for (i = 0; i < VP_STRMAX; i++) {
        q[i] = (char)vp_u8(tag);
        if (i < n && q[i] == 0 && vp_random) q[i] = 'b';
        if (i < n) vp_assume(q[i] != 0); else q[i] = 0;
    }
    q[VP_STRMAX] = 0;
    p = malloc(n + 1); memcpy(p, q, n + 1); free(q);   /* exact size for ASan */
    return p;
}
char *vp_opaque(void) { return g_strdup("msg"); }
gsize vp_len(const char *s) { return strlen(s); }
gssize vp_first_nul(const char *p, gssize n)
{ gssize i; for (i = 0; i < n; i++) if (!p[i]) return i; return -1; }
int vp_streq(const char *a, const char *b)
{ if (a == b) return 1; if (!a || !b) return 0; return !strcmp(a, b); }
int vp_gs_byte(const char *d, gsize i) { return (guint8)d[i]; }
GError *vp_error(const char *tag) { return g_error_new(1, 1, "e"); }
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
static int batch(guint64 seed, int n)
{
    int i, ok = 0; guint64 bad = 0;
    for (i = 0; i < n && !bad; i++) {
        int st; pid_t p;
        fflush(stdout);
        p = fork();
        if (p == 0) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1); dup2(fd, 2);
            alarm(5);
            vp_seed = seed + i;
            vp_main();
            _exit(0);
        }
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) ok++;
        else if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78 || WEXITSTATUS(st) == 79)) ;
        else bad = seed + i;
    }
    printf("VP-BATCH runs=%d accepted=%d seed=%llu\n", i, ok, (unsigned long long)bad);
    return 0;
}
int main(int argc, char **argv)
{
    if (argc > 2 && !strcmp(argv[1], "random")) { vp_random = 1; setenv("VP_RANDOM", "1", 1); vp_seed = strtoull(argv[2], 0, 10);
        if (argc > 3) return batch(vp_seed, atoi(argv[3])); }
    else if (argc > 1) vp_in = fopen(argv[1], "r");
    vp_main();
    printf("VP-DONE reached=%d\n", vp_reached);
    return 0;
}
