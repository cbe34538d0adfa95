/* Line protocol: "<fn> <arg> <arg>...\n"; arg = hex bytes ("-" = empty, "NULL" = null pointer, "#n" = integer).
   Reply: one line of space separated values of the same form. Every string argument is an exact-size heap block. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
typedef struct { unsigned char *p; size_t n; long long i; int null; } drv_arg;
static drv_arg A[64];
static int NA;
static char *S(int k) { return A[k].null ? NULL : (char *)A[k].p; }
static size_t N(int k) { return A[k].n; }
static long long I(int k) { return A[k].i; }
static void drv_hang(int s) { (void)s; static const char m[] = "!HANG\n"; if (write(1, m, 6)) {} _exit(3); }
static void out_mem(const void *v, size_t n) {
    const unsigned char *p = v;
    if (n == 0) { fputs("- ", stdout); return; }
    for (size_t i = 0; i < n; i++) printf("%02x", p[i]);
    putchar(' ');
}
static void out_str(const char *s) { if (!s) fputs("NULL ", stdout); else out_mem(s, strlen(s)); }
static void out_int(long long v) { printf("#%lld ", v); }
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void drv_dispatch(const char *fn);
#define FN(name) if (strcmp(fn, name) == 0)
int main(void) {
    char *line = NULL; size_t cap = 0; ssize_t len;
    signal(SIGALRM, drv_hang);
    while ((len = getline(&line, &cap, stdin)) > 0) {
        if (line[len - 1] == '\n') line[--len] = 0;
        NA = 0;
        char *sv = NULL, *fn = strtok_r(line, " ", &sv), *t;
        if (!fn) continue;
        while ((t = strtok_r(NULL, " ", &sv)) && NA < 64) {
            drv_arg *a = &A[NA++];
            memset(a, 0, sizeof *a);
            if (strcmp(t, "NULL") == 0) { a->null = 1; continue; }
            if (t[0] == '#') { a->i = atoll(t + 1); continue; }
            if (strcmp(t, "-") == 0) t = "";
            a->n = strlen(t) / 2;
            a->p = malloc(a->n + 1);
            for (size_t i = 0; i < a->n; i++) a->p[i] = (unsigned char)(hexv(t[2 * i]) << 4 | hexv(t[2 * i + 1]));
            a->p[a->n] = 0;
        }
        alarm(10);
        drv_dispatch(fn);
        alarm(0);
        for (int i = 0; i < NA; i++) if (A[i].p) free(A[i].p);
        putchar('\n');
        fflush(stdout);
    }
    return 0;
}
