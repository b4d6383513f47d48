// neco_pipe harness (C27): real sockets (in the abstract namespace, the socket files are virtual), system calls that fail or are interrupted.
// ops: P make a pipe, use it, close it   K make a pipe and keep it   y T p k
// cfg: kd 1 EINTR/EAGAIN 4 failing system calls 32 out of memory 64 short handshake;  async=1;  fd0=1 descriptor 0 is free
#include "prog.h"
#include <fcntl.h>
#include <sys/un.h>
static int kd, async;
static struct { char path[108]; bool file; char real[40]; } SF[64]; static int nSF;
static bool inpipe; static struct pcall { int co; bool done, nomem; int nerr; } PC[64]; static int nPC; static struct pcall *cur[MAXCO];
static int kept[64], nkept;
static int dv(int bit, int n) { return (kd & bit) && !draining && inpipe ? mc_dev(n) : 0; }
static int kerr(int e) { if (e == EMFILE || e == ENFILE || e == ENOMEM || e == ENOBUFS) mc_faults++; for (int i = 0; i < nPC; i++) if (!PC[i].done) PC[i].nerr++; mc_log("    (kernel: errno %d)", e); mc_nontrivial(); errno = e; return -1; }
static int find(const char *p) { for (int i = nSF; i-- > 0;) if (!strcmp(SF[i].path, p)) return i; return -1; }
static socklen_t absaddr(struct sockaddr_un *u, int i) { memset(u, 0, sizeof *u); u->sun_family = AF_UNIX; int n = snprintf(u->sun_path+1, 100, "mcpipe.%d.%d.%s", (int)getpid(), i, SF[i].real); return (socklen_t)(offsetof(struct sockaddr_un, sun_path)+1+(size_t)n); }
static int gen;
static int p_socket(int d, int t, int p) { if (d != AF_UNIX || !(t & SOCK_STREAM)) mc_fail("C27", "neco_pipe creates a socket of family %d", d); if (dv(4,2)) return kerr(EMFILE); return __real_socket(d, t, p); }
static int p_bind(int fd, const struct sockaddr *sa, socklen_t l) {
    (void)l; const struct sockaddr_un *u = (const void*)sa; if (dv(4,2)) return kerr(EACCES);
    int i = find(u->sun_path); if (i >= 0 && SF[i].file) return kerr(EADDRINUSE);
    if (nSF >= 60) mc_abandon();
    i = nSF++; snprintf(SF[i].path, 108, "%s", u->sun_path); SF[i].file = true; snprintf(SF[i].real, 40, "%d", gen++);
    struct sockaddr_un v; socklen_t n = absaddr(&v, i); return __real_bind(fd, (void*)&v, n);
}
static int p_listen(int fd, int b) { if (dv(4,2)) return kerr(EADDRINUSE); return __real_listen(fd, b); }
static int p_connect(int fd, const struct sockaddr *sa, socklen_t l) {
    (void)l; const struct sockaddr_un *u = (const void*)sa;
    int f = (int)__real_fcntl(fd, F_GETFL); if (!(f & O_NONBLOCK)) mc_fail("C27", "connect on a blocking descriptor");
    if (dv(1,2)) { errno = EINTR; return -1; } if (dv(4,2)) return kerr(ECONNREFUSED);
    int i = find(u->sun_path); if (i < 0 || !SF[i].file) return kerr(ENOENT);
    struct sockaddr_un v; socklen_t n = absaddr(&v, i); return __real_connect(fd, (void*)&v, n);
}
static int p_accept(int fd, struct sockaddr *a, socklen_t *l) { int k = dv(1,3); if (k) { errno = k == 1 ? EINTR : EAGAIN; return -1; } if (dv(4,2)) return kerr(EMFILE); return __real_accept(fd, a, l); }
static int p_unlink(const char *p) { int i = find(p); if (i < 0) { mc_fail("C27", "neco_pipe deletes '%s'", p); errno = ENOENT; return -1; } if (!SF[i].file) { errno = ENOENT; return -1; } SF[i].file = false; return 0; }
static int p_fcntl(int fd, int cmd, long a) { if (cmd == F_SETFL && dv(4,2)) return kerr(EPERM); return __real_fcntl(fd, cmd, a); }
static ssize_t p_read(int fd, void *b, size_t n) { int k = dv(1,3); if (k) { errno = k == 1 ? EINTR : EAGAIN; return -1; } if (dv(4,2)) return kerr(EIO); return __real_read(fd, b, n); }
static ssize_t p_write(int fd, const void *b, size_t n) { int k = dv(1,3); if (k) { errno = k == 1 ? EINTR : EAGAIN; return -1; } if (dv(4,2)) return kerr(EIO); if (n > 1 && dv(64,2)) { int r = (int)__real_write(fd, b, 1); mc_log("    (short write)"); return r; } return __real_write(fd, b, n); }
static bool p_fault(int kind) { if ((kind == F_MALLOC || kind == F_MMAP) && kd & 32 && inpipe && !draining && mc_dev(2)) { for (int i = 0; i < nPC; i++) if (!PC[i].done) PC[i].nomem = true; mc_log("    (out of memory)"); mc_nontrivial(); return true; } return false; }
int __wrap_close(int fd);
static void do_pipe(struct cot *c, bool keep) {
    if (nPC >= 60) mc_abandon();
    struct pcall *k = &PC[nPC++]; *k = (struct pcall){ .co = (int)(c-cot) }; cur[c-cot] = k;
    size_t nf = mc_nfd; bool alone = true; for (int i = 0; i < nPC-1; i++) if (!PC[i].done) alone = false;
    int f[2] = { -7, -7 };
    op_begin(c, "pipe", K_EV, vt_now+5000*MS); inpipe = true;
    neco_rand_setseed(77+(int)(c-cot), NULL); bool rnd = alone;
    errno = 0; int r = neco_pipe(f), en = errno, le = neco_lasterr();
    op_end(c, r); k->done = true; inpipe = false; for (int i = 0; i < nPC; i++) if (!PC[i].done) inpipe = true;
    if (rnd && k == &PC[nPC-1]) { char ra[8], rb[8]; memset(ra, 1, 8); memset(rb, 2, 8); int x = neco_rand(ra, 8, NECO_PRNG); neco_rand_setseed(77+(int)(c-cot), NULL); int y = neco_rand(rb, 8, NECO_PRNG);
        if (x == NECO_OK && y == NECO_OK && memcmp(ra, rb, 8)) mc_fail("C26", "neco_pipe disturbs the seeded random numbers");
        if (x == NECO_CANCELED || y == NECO_CANCELED) cpend[c-cot] = 0; errno = en; }
    int os; neco_setcancelstate(NECO_CANCEL_ENABLE, &os); if (os != NECO_CANCEL_ENABLE) mc_fail("C27,C15", "neco_pipe changes the caller's cancelation state");
    if (r == 0) {
        if (f[0] < 0 || f[1] < 0 || f[0] == f[1] || !mc_fd_isopen(f[0]) || !mc_fd_isopen(f[1])) { mc_fail("C27", "neco_pipe succeeds but returns %d and %d", f[0], f[1]); return; }
        for (int i = 0; i < 2; i++) if (!(__real_fcntl(f[i], F_GETFL) & O_NONBLOCK)) mc_fail("C27", "end %d of the pipe is blocking", i);
        for (int i = 0; i < nkept; i++) if (kept[i] == f[0] || kept[i] == f[1]) mc_fail("C27", "neco_pipe returns a descriptor already in use");
        char b[8]; ssize_t n;
        for (int i = 0; i < 2; i++) {
            n = __real_read(f[i], b, 8); if (n != -1 || errno != EAGAIN) mc_fail("C27", "something is in the new pipe (%d)", (int)n);
            n = __real_write(f[1-i], "x", 1); if (n != 1) mc_fail("C27", "the new pipe cannot be written"); n = __real_read(f[i], b, 8); if (n != 1 || b[0] != 'x') mc_fail("C27", "the ends of the pipe are not connected to each other");
        }
        if (le != NECO_OK) mc_fail("C27,C25", "neco_pipe succeeds, the last error is %d", le);
        if (alone && k == &PC[nPC-1] && nf + 2 != mc_nfd && mc_nfd != nf + 3) mc_fail("C27,C29", "neco_pipe leaves other descriptors behind (%zu before, %zu after)", nf, mc_nfd); // + the event queue
        mc_nontrivial(); chk(c, NECO_OK, INT64_MAX);
        if (keep) { kept[nkept++] = f[0]; kept[nkept++] = f[1]; } else { __wrap_close(f[0]); __wrap_close(f[1]); }
        return;
    }
    if (r != -1) mc_fail("C27", "neco_pipe returned %d", r);
    if (f[0] != -7 || f[1] != -7) mc_fail("C27", "a failed neco_pipe returns descriptors");
    if (en == 0) mc_fail("C27,C25", "neco_pipe fails without an error number");
    if (le == NECO_OK) mc_fail("C27,C25", "neco_pipe fails but the last error is 0");
    if (en == ECANCELED) { chk(c, NECO_CANCELED, INT64_MAX); return; }
    if (!k->nerr && !k->nomem) mc_fail("C27", "neco_pipe fails (errno %d) for no reason", en);
    mc_outcome((uint64_t)en);
}
int __wrap_close(int fd);
static void gone(void *arg) { struct cot *c = arg; mc_log("co%d is canceled asynchronously", (int)(c-cot)); if (cur[c-cot]) cur[c-cot]->done = true; inpipe = false; for (int i = 0; i < nPC; i++) if (!PC[i].done) inpipe = true; c->busy = false; cpend[c-cot] = 0; cot_exit(c); nrunning--; if (nrunning == 0 && !inspecting) { draining = true; inspecting = 2; prog_last(c); } }
static int prog_expand(char o) { (void)o; return 1; }
static bool prog_enabled(struct cot *c, int i, char o, int v) { (void)c; (void)i; (void)v; (void)o; return true; }
static void prog_op(struct cot *c, int i, char o, int v) {
    (void)v;
    if (async && i > 0) { neco_setcanceltype(NECO_CANCEL_ASYNC, NULL); neco_cleanup_push(gone, c); do_pipe(c, o == 'K'); neco_cleanup_pop(0); neco_setcanceltype(NECO_CANCEL_INLINE, NULL); }
    else do_pipe(c, o == 'K');
}
static void prog_root(void) {} static void prog_leave(struct cot *c, int i) { (void)c; (void)i; }
static void prog_judge(void) { for (int i = 0; i < nPC; i++) if (!PC[i].done && cot[PC[i].co].alive) mc_fail("C27", "neco_pipe never returns"); }
static void prog_inspect(struct cot *c) { (void)c; }
static void prog_last(struct cot *c) { (void)c; while (nkept) __wrap_close(kept[--nkept]); for (int i = 0; i < nSF; i++) if (SF[i].file) mc_fail("C27", "the socket file of a pipe is left behind"); }
static void prog_reset(void) { nSF = nPC = nkept = 0; inpipe = false; memset(cur, 0, sizeof cur); }
void mc_setup(void) {
    { struct sigaction si = { .sa_handler = SIG_IGN }; __real_sigaction(SIGPIPE, &si, NULL); }
    mc_evprop = "C27"; kd = mc_cfg("kd", 0); async = mc_cfg("async", 0);
    prog_setup(); cancel_may_wait = 1;
    mc_hooks.socket = p_socket; mc_hooks.bind = p_bind; mc_hooks.listen = p_listen; mc_hooks.connect = p_connect; mc_hooks.accept = p_accept; mc_hooks.unlink = p_unlink; mc_hooks.fcntl = p_fcntl;
    mc_hooks.read = p_read; mc_hooks.write = p_write; mc_hooks.fault = p_fault;
}
