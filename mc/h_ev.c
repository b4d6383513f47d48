// Descriptor wait harness (C16): real pipes and socket pairs, the real epoll.
// endpoints 0,1 are the first pair, 2,3 the second, ... (cfg prs=<letters>: p pipe [0 reads, 1 writes], s socket pair)
// ops: r w wait for endpoint v   R W with a deadline   b put a byte into endpoint v (its peer becomes readable)
//      f fill endpoint v   d drain endpoint v   c close endpoint v (if nobody waits for it)   h shut down the sending side
//      o reopen the pair under the same numbers (if nobody waits for it)   O even if somebody does   Y many yields
//      Q wait again and again for the readable endpoint v while time passes   y T p k
// cfg: only=<endpoints waited for>, act=<endpoints acted on>, init=<per pair: . nothing, d data for even endpoint, f both full>, bulk=1
#include <poll.h>
#include <fcntl.h>
#include "prog.h"
#define BASE 200
static int npair, eps, bulk; static char prs[64], ini[64]; static char only[16], act[16]; static int ylen;
static bool closed_[64];
static struct wt { int co, ep; bool rd, done, seen, stale; int64_t dl; int waited; } W[256]; static int nW;
static int fd_of(int e) { return BASE+e; }
static void mkpair(int p) {
    int f[2];
    if (prs[p] == 'p') { if (__real_pipe(f)) abort(); __real_fcntl(f[0], F_SETPIPE_SZ, 4096); }
    else { if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) abort(); int v = 1; for (int i = 0; i < 2; i++) __real_setsockopt(f[i], SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
    for (int i = 0; i < 2; i++) { dup2(f[i], fd_of(p*2+i)); __real_close(f[i]); __real_fcntl(fd_of(p*2+i), F_SETFL, O_NONBLOCK); closed_[p*2+i] = false; }
}
static bool can(int e, bool rd) { return prs[e/2] == 's' || (rd ? e%2 == 0 : e%2 == 1); }
static bool ready(int e, bool rd) {
    if (closed_[e]) return false;
    struct pollfd p = { .fd = fd_of(e), .events = rd ? POLLIN : POLLOUT };
    int __real_poll(struct pollfd*,nfds_t,int);
    __real_poll(&p, 1, 0);
    return p.revents & (rd ? POLLIN|POLLHUP|POLLERR : POLLOUT|POLLHUP|POLLERR);
}
static void look(void) { for (int i = 0; i < nW; i++) if (!W[i].done) { if (ready(W[i].ep, W[i].rd)) W[i].seen = true; else W[i].waited = 0; } }
static void turn(struct cot *c) {
    int lim = 8*ncot+40;
    for (int i = 0; i < nW; i++) if (!W[i].done && !W[i].stale && W[i].co != c-cot && ready(W[i].ep, W[i].rd) && ++W[i].waited > lim)
        mc_fail("C16,C13", "coroutine %d waits for endpoint %d, which is %s, and is not woken for %d turns of others", W[i].co, W[i].ep, W[i].rd ? "readable" : "writable", lim);
}
static bool waited_for(int e) { for (int i = 0; i < nW; i++) if (!W[i].done && W[i].ep == e) return true; return false; }
static void put(int e) { char b = 'x'; if (!closed_[e]) __real_write(fd_of(e), &b, 1); look(); }
static void fill(int e) { static char b[8192]; if (!closed_[e]) for (int i = 0; i < 100 && __real_write(fd_of(e), b, prs[e/2] == 'p' ? 4096 : 1000) > 0; i++); look(); }
static void drain(int e) { char b[8192]; if (!closed_[e]) while (__real_read(fd_of(e), b, sizeof b) > 0); look(); }

static void do_wait(struct cot *c, int e, bool rd, int64_t dl) {
    if (nW >= 250) mc_abandon();
    struct wt *w = &W[nW++]; *w = (struct wt){ .co = (int)(c-cot), .ep = e, .rd = rd, .dl = dl };
    look();
    bool bad = closed_[e];
    if (bad) op_beginx(c, "wait(closed)", K_EV, dl); else op_begin(c, rd ? "wait read" : "wait write", K_EV, dl);
    if (mc_verbose) mc_log("co%d waits for endpoint %d (%s%s)", w->co, e, rd ? "read" : "write", w->seen ? ", ready" : "");
    errno = 0;
    int m = rd ? NECO_WAIT_READ : NECO_WAIT_WRITE;
    int r = dl == INT64_MAX ? neco_wait(fd_of(e), m) : neco_wait_dl(fd_of(e), m, dl), en = errno;
    op_end(c, r);
    w->done = true;
    if (r == NECO_OK) {
        if (bad) mc_fail("C16", "waiting for a closed descriptor succeeds");
        if (!w->seen) mc_fail("C16", "the wait for endpoint %d to be %s succeeds although it never was", e, rd ? "readable" : "writable");
        mc_nontrivial();
    } else if (r == NECO_ERROR) {
        if (!bad) mc_fail("C16", "the wait for an open descriptor fails (errno %d)", en);
        if (en != EBADF) mc_fail("C16,C25", "waiting for a closed descriptor sets errno to %d", en);
    } else if (r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C16", "wait returned %d", r);
    if (neco_lasterr() != r) mc_fail("C25", "wait returned %d but the last error is %d", r, neco_lasterr());
    turn(c);
    chk(c, r, dl);
}
static int prog_expand(char o) { return o == 'Y' ? 1 : o == 'o' || o == 'O' ? npair : eps; }
static bool prog_enabled(struct cot *c, int i, char o, int v) {
    (void)c; (void)i;
    if (strchr("rwRW", o) ? only[0] && !strchr(only, '0'+v) : strchr("bfdch", o) && act[0] && !strchr(act, '0'+v)) return false;
    switch (o) {
    case 'r': case 'R': return can(v, true);
    case 'w': case 'W': return can(v, false);
    case 'b': case 'f': return can(v, false) && !closed_[v];
    case 'd': return can(v, true) && !closed_[v];
    case 'c': return !closed_[v] && !waited_for(v);
    case 'h': return prs[v/2] == 's' && !closed_[v];
    case 'Q': return can(v, true) && ready(v, true);
    case 'O': return waited_for(v*2) || waited_for(v*2+1);
    case 'o': return !waited_for(v*2) && !waited_for(v*2+1);
    }
    return true;
}
static void prog_op(struct cot *c, int i, char o, int v) {
    (void)i;
    if (mc_verbose && !strchr("rwRWYQ", o)) mc_log("co%d: %c on %d", i, o, v);
    switch (o) {
    case 'r': case 'w': do_wait(c, v, o == 'r', INT64_MAX); break;
    case 'R': case 'W': do_wait(c, v, o == 'R', dl_in(1)); break;
    case 'b': put(v); break;
    case 'f': fill(v); break;
    case 'd': drain(v); break;
    case 'c': closed_[v] = true; __real_close(fd_of(v)); look(); break;
    case 'h': shutdown(fd_of(v), SHUT_WR); look(); break;
    case 'o': mkpair(v); look(); break;
    case 'O': mkpair(v); for (int k = 0; k < nW; k++) if (!W[k].done && W[k].ep/2 == v) W[k].stale = true; look(); break; // they wait for what is no more
    case 'Q': for (int k = 0; k < ylen; k++) {
        int r = (int)op_call(c, "wait read", K_EV, INT64_MAX, neco_wait(fd_of(v), NECO_WAIT_READ)); turn(c); chk(c, r, INT64_MAX);
        if (r != NECO_OK || !ready(v, true)) break;
        if (k == 2) { vt_now += 2*unit*MS; mc_log("co%d spends %d ms", i, 2*unit); } } break;
    case 'Y': for (int k = 0; k < ylen; k++) { op_callx(c, "yield", K_OTHER, neco_yield()); turn(c); } break;
    }
}
static void prog_root(void) {
    for (int p = 0; p < npair; p++) { mkpair(p);
        if (ini[p] == 'd') put(p*2+1);
        if (ini[p] == 'f') { if (can(p*2, false)) fill(p*2); fill(p*2+1); } }
}
static void prog_leave(struct cot *c, int i) { (void)c; (void)i; }
static void prog_judge(void) {
    for (int i = 0; i < nW; i++) if (!W[i].done && !W[i].stale && ready(W[i].ep, W[i].rd))
        mc_fail("C16", "coroutine %d waits for ever for endpoint %d, which is %s", W[i].co, W[i].ep, W[i].rd ? "readable" : "writable");
}
static void prog_inspect(struct cot *c) { (void)c; }
static void prog_last(struct cot *c) { (void)c; }
static void prog_reset(void) {
    for (int e = 0; e < eps; e++) __real_close(fd_of(e));
    memset(W, 0, sizeof(struct wt)*(size_t)nW); nW = 0;
}
// ------------------------------------------------ many descriptors at once --
static int bn, bper, bcount; static bool bw[64];
static void bwaiter(int argc, void **argv) {
    (void)argc; int e = (int)(intptr_t)argv[0];
    struct cot *c = cot_new(); int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    nrunning++;
    do_wait(c, e, true, e%5 == 4 ? dl_in(3) : INT64_MAX); bcount++;
    nrunning--; cot_exit(c);
}
static void broot(int argc, void **argv) {
    (void)argc; (void)argv;
    struct cot *c = cot_new();
    bn = 1 + mc_choose(28); bper = 1+mc_choose(2); int order = mc_choose(3), before = mc_choose(2), want = 0;
    npair = bn; eps = bn*2; for (int p = 0; p < bn; p++) mkpair(p);
    for (int k = 0; k < 2; k++) {
        if (k == before) for (int p = 0; p < bn; p++) { int q = order == 0 ? p : order == 1 ? bn-1-p : (p*29+3)%bn; put(q*2+1); }
        else for (int p = 0; p < bn; p++) for (int m = 0; m < bper; m++) { op_beginx(c, "start", K_OTHER, INT64_MAX); int r = neco_start(bwaiter, 1, (void*)(intptr_t)(p*2)); op_end(c, r); want++; }
    }
    for (int y = 0; y < bn/4+4 && bcount < want; y++) op_callx(c, "yield", K_OTHER, neco_yield());
    if (bcount < want) mc_fail("C16,C13", "%d of %d waits for readable descriptors have not ended after %d rounds", want-bcount, want, bn/4+4);
    mc_nontrivial(); mc_outcome((uint64_t)bn*100+(uint64_t)(order*10+bper*2+before));
    cot_exit(c);
}
static void brun(void) { bcount = 0; if (neco_start(broot, 0) != NECO_OK) mc_fail("*", "start fails"); }
static void breset(void) { for (int e = 0; e < 60; e++) __real_close(fd_of(e)); npair = 0; eps = 0; reset(); }
void mc_setup(void) {
    mc_evprop = "C16";
    signal(SIGPIPE, SIG_IGN);
    bulk = mc_cfg("bulk", 0); snprintf(prs, sizeof prs, "%s", mc_cfgs("prs", "p")); snprintf(ini, sizeof ini, "%s", mc_cfgs("init", "........")); snprintf(only, sizeof only, "%s", mc_cfgs("only", "")); snprintf(act, sizeof act, "%s", mc_cfgs("act", ""));
    npair = (int)strlen(prs); eps = npair*2; ylen = mc_cfg("ylen", 200);
    prog_setup(); mc_hooks.idle = idle;
    if (bulk) { memset(prs, 'p', sizeof prs); mc_hooks.run = brun; mc_hooks.reset = breset; }
}
