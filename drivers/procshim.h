/* Stand-ins for pipe/fork/exec/write/read: nothing is started. Short counts and EINTR come from a seed; the command the
   child would run is recorded (the child branch is executed up to execl, then control returns to the parent branch). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <setjmp.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <errno.h>
static unsigned long long rs; static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(rs >> 33) % n; }
static char *req; static size_t nreq, creq; static const char *rep; static size_t nrep, prep; static int wclosed, np, xst, inchild, d0, d1;
static const char *ran; static const char *ranenv; static jmp_buf jb;
static void (*on_exec)(const char *cmd);
static void shim_reset(unsigned long long seed, const char *r, size_t n, int st) {
    rs = seed; free(req); req = malloc(creq = 16); nreq = 0; rep = r; nrep = n; prep = 0; wclosed = np = inchild = 0; xst = st; ran = "?"; ranenv = "?"; d0 = d1 = -1;
}
static ssize_t s_write(int fd, const void *p, size_t n) {
    size_t k = n ? (rnd(3) ? n : 1 + rnd((unsigned)(n > 100000 ? 100000 : n))) : 0;
    if (k > n) k = n;
    if (fd != 41 || wclosed) return -1;
    if (nreq + k + 1 > creq) req = realloc(req, creq = (nreq + k + 1) * 2);
    memcpy(req + nreq, p, k); nreq += k; return (ssize_t)k;
}
static ssize_t s_read(int fd, void *p, size_t n) {
    if (rnd(5) == 0) { errno = EINTR; return -1; }
    if (!wclosed || fd != 50) { errno = EDEADLK; return -1; }
    size_t k = nrep - prep; if (k > n) k = n;
    if (k > 1 && rnd(2)) k = 1 + rnd((unsigned)k);
    memcpy(p, rep + prep, k); prep += k; return (ssize_t)k;
}
static int s_pipe(int *f) { int b = np % 2; if (!b) { nreq = 0; prep = 0; wclosed = 0; } f[0] = b ? 50 : 40; f[1] = b ? 51 : 41; np++; return 0; }
static int s_close(int fd) { if (fd == 41 && !inchild) wclosed = 1; return 0; }
static int s_dup2(int a, int b) { if (b == 0) d0 = a; if (b == 1) d1 = a; return b; }
static int s_execl(const char *path, const char *a0, const char *a1, const char *cmd, ...) {
    inchild = 0;
    ran = !strcmp(path, "/bin/sh") && !strcmp(a1, "-c") && d0 == 40 && d1 == 51 ? cmd : "?";
    ranenv = getenv("APEX_TARGET_FORMAT");
    if (on_exec) on_exec(ran);
    longjmp(jb, 1);
}
#define write s_write
#define read s_read
#define pipe s_pipe
#define close s_close
#define dup2 s_dup2
#define execl s_execl
#define fork() (inchild = 1, setjmp(jb) ? 4242 : 0)
#define waitpid(a, b, c) (*(b) = xst, (a))
