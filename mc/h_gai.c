// Name resolution harness (C28) on virtual threads with a virtual resolver.
// ops: g lookup (v: 0 name 1 address 2 name without service and hints 3 service only)   G lookup with a deadline   y T p k
// cfg: async 1: coroutines other than the first are canceled asynchronously   flt resource failures are deviations   dev, slow delays of the resolver in ms ("slow=15")
// WRAP: getaddrinfo freeaddrinfo pthread_create pthread_detach pthread_join pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
#include "prog.h"
#include "vth.h"
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
static int async, flt, slow;
#define MAXG 24
static struct rq { bool used, done, ret, asked, answered; int co, kind; char node[24], serv[16]; bool hints; int code, en; struct addrinfo *ai; bool live; bool faulted; } G[MAXG]; static int nG;
static struct addrinfo AI[MAXG][2]; static int infault; static struct rq *faultrq;
static char pipesync;
static struct rq *find_rq(const char *node, const char *serv) {
    const char *s = serv ? serv : node; if (!s) return NULL;
    for (int i = 0; i < nG; i++) if ((node && !strcmp(G[i].node, node) && (!serv ? !G[i].serv[0] : !strcmp(G[i].serv, serv))) || (!node && !G[i].node[0] && serv && !strcmp(G[i].serv, serv))) return &G[i];
    return NULL;
}
int __wrap_getaddrinfo(const char *node, const char *serv, const struct addrinfo *h, struct addrinfo **res) {
    struct rq *q = find_rq(node, serv);
    if (!q) { mc_fail("C28", "the resolver is asked for '%s' '%s', which nobody requested", node ? node : "-", serv ? serv : "-"); return EAI_FAIL; }
    int k = (int)(q-G);
    if (q->asked) mc_fail("C28", "the resolver is asked twice for request %d", k);
    q->asked = true; mc_progress();
    if (vcur == 0 && q->kind != 1) mc_fail("C28", "the resolver is called on the thread of the runtime");
    if (!!h != q->hints || (h && (h->ai_family != AF_INET || h->ai_socktype != SOCK_STREAM || h->ai_flags != AI_PASSIVE || h->ai_protocol != IPPROTO_TCP))) mc_fail("C28", "the hints of request %d do not reach the resolver", k);
    if (vcur != 0) { v_point("resolver"); if (slow && mc_choose(2)) v_delay(slow*MS); }
    int a = mc_choose(3);
    mc_log("    the resolver answers request %d on thread %d: %s", k, vcur, a == 0 ? "found" : a == 1 ? "no name" : "system error");
    q->answered = true; mc_progress();
    if (a == 0) { memset(AI[k], 0, sizeof AI[k]); AI[k][0].ai_next = &AI[k][1]; AI[k][0].ai_family = 1000+k; q->ai = AI[k]; q->live = true; q->code = 0; *res = AI[k]; mc_nontrivial(); }
    else if (a == 1) q->code = EAI_NONAME;
    else { q->code = EAI_SYSTEM; q->en = errno = EIO; }
    if (vcur != 0) v_point("resolver");
    if (q->code == EAI_SYSTEM) errno = EIO;
    return q->code;
}
void __wrap_freeaddrinfo(struct addrinfo *ai) {
    if (!ai) return;
    for (int i = 0; i < nG; i++) if (ai == AI[i]) { if (!G[i].live) mc_fail("C28,C29", "a resolver result is released twice"); if (G[i].ret && G[i].code == 0 && G[i].ai == ai && G[i].done) mc_fail("C28", "a result the caller owns is released"); G[i].live = false; mc_log("    (result %d released on thread %d)", i, vcur); return; }
    mc_fail("C28", "something else than a resolver result is released");
}
static ssize_t g_write(int fd, const void *b, size_t n) { v_point("pwrite"); vc_rel(v_obj(&pipesync)); ssize_t r = __real_write(fd, b, n); mc_progress(); v_poke(); v_point("pwrite"); return r; }
static ssize_t g_read(int fd, void *b, size_t n) { ssize_t r = __real_read(fd, b, n); if (r > 0) vc_acq(v_obj(&pipesync)); return r; }
static void mark_fault(void) { if (faultrq) faultrq->faulted = true; mc_nontrivial(); }
static bool g_fault(int kind) {
    if (!infault || vcur != 0 || !(kind == F_MALLOC || kind == F_PIPE || kind == F_PTHREAD_CREATE)) return false;
    if (mc_dev(2)) { mc_log("    (resource failure %d)", kind); mark_fault(); return true; }
    return false;
}
static int g_fcntl(int fd, int cmd, long a) {
    if (infault && vcur == 0 && cmd == F_SETFL && mc_dev(2)) { mc_log("    (fcntl fails)"); mark_fault(); errno = EPERM; return -1; }
    return __real_fcntl(fd, cmd, a);
}
static void gone(void *arg) { struct cot *c = arg; mc_log("co%d is canceled asynchronously", (int)(c-cot)); c->busy = false; cpend[c-cot] = 0; cot_exit(c); nrunning--; }
static void do_gai(struct cot *c, int v, int64_t dl) {
    if (nG >= MAXG) mc_abandon();
    int k = nG++; struct rq *q = &G[k]; *q = (struct rq){ .used = true, .co = (int)(c-cot), .kind = v };
    if (v == 0 || v == 2) snprintf(q->node, 24, "host%d", k);
    if (v == 1) snprintf(q->node, 24, "10.0.0.%d", k);
    if (v != 2) snprintf(q->serv, 16, "s%d", k);
    struct addrinfo hints = { .ai_family = AF_INET, .ai_socktype = SOCK_STREAM, .ai_flags = AI_PASSIVE, .ai_protocol = IPPROTO_TCP };
    q->hints = v != 2;
    struct addrinfo *res = (void*)0x5a5a; char node[24]; memcpy(node, q->node, 24); char serv[16]; memcpy(serv, q->serv, 16);
    faultrq = q; infault = flt;
    op_begin(c, dl == INT64_MAX ? "getaddrinfo" : "getaddrinfo_dl", K_EV, dl);
    errno = 0;
    int r = dl == INT64_MAX ? neco_getaddrinfo(node[0] ? node : NULL, serv[0] ? serv : NULL, q->hints ? &hints : NULL, &res) : neco_getaddrinfo_dl(node[0] ? node : NULL, serv[0] ? serv : NULL, q->hints ? &hints : NULL, &res, dl);
    int en = errno, le = neco_lasterr();
    op_end(c, r); infault = 0;
    memset(node, 'X', 23); memset(serv, 'X', 15);
    q->done = true;
    int rr = NECO_OK;
    if (r == 0) {
        if (!q->answered || q->code != 0 || res != q->ai) mc_fail("C28", "lookup %d succeeds with something else than the resolver's answer", k);
        if (!q->live) mc_fail("C28", "the result of lookup %d has been released already", k);
        q->ret = true;
        if (le != NECO_OK) mc_fail("C28,C25", "lookup succeeds but the last error is %d", le);
    } else if (r == EAI_SYSTEM && en == ECANCELED) { rr = NECO_CANCELED; if (le != NECO_CANCELED) mc_fail("C28,C25", "canceled lookup, last error %d", le); }
    else if (r == EAI_SYSTEM && en == ETIMEDOUT) { rr = NECO_TIMEDOUT; if (le != NECO_TIMEDOUT) mc_fail("C28,C25", "timed out lookup, last error %d", le); }
    else if (q->faulted && !q->answered) {
        rr = NECO_ERROR;
        if (!(r == EAI_MEMORY || (r == EAI_SYSTEM && (en == ENOMEM || en == EMFILE || en == EAGAIN || en == EPERM)))) mc_fail("C28,C23", "a resource failure is reported as %d (errno %d)", r, en);
    } else {
        rr = NECO_ERROR;
        if (!q->answered || r != q->code) mc_fail("C28", "lookup %d returned %d (errno %d), the resolver said %d", k, r, en, q->code);
        if (r == EAI_SYSTEM && en != q->en) mc_fail("C28", "lookup %d fails with errno %d, the resolver said %d", k, en, q->en);
        if (r == EAI_SYSTEM ? le != NECO_ERROR : le != NECO_GAIERROR) mc_fail("C28,C25", "failed lookup (%d), last error %d", r, le);
    }
    if (q->faulted && r == 0 && !q->asked) mc_fail("C28", "success despite a resource failure");
    mc_outcome((uint64_t)r*31+(uint64_t)en);
    chk(c, rr, dl);
    if (r == 0) { q->ret = false; __wrap_freeaddrinfo(res); }
}
static int prog_expand(char o) { (void)o; return 4; }
static bool prog_enabled(struct cot *c, int i, char o, int v) { (void)c; (void)i; (void)o; return strchr(mc_cfgs("kinds", "0123"), '0'+v); }
static void prog_op(struct cot *c, int i, char o, int v) {
    int64_t dl = o == 'g' ? INT64_MAX : dl_in(1);
    if (async && i > 0) { neco_setcanceltype(NECO_CANCEL_ASYNC, NULL); neco_cleanup_push(gone, c); do_gai(c, v, dl); neco_cleanup_pop(0); neco_setcanceltype(NECO_CANCEL_INLINE, NULL); }
    else do_gai(c, v, dl);
}
static void prog_root(void) {} static void prog_leave(struct cot *c, int i) { (void)c; (void)i; }
static void prog_judge(void) { for (int i = 0; i < nG; i++) if (!G[i].done && cot[G[i].co].alive) mc_fail("C28", "lookup %d never returns", i); }
static void prog_inspect(struct cot *c) { (void)c; } static void prog_last(struct cot *c) { (void)c; }
static void prog_reset(void) { vth_reset(); nG = 0; infault = 0; faultrq = NULL; }
static void end_(void) {
    v_drain();
    if (vth_left()) mc_fail("C28,C29", "a resolver thread outlives its answer");
    for (int i = 0; i < nG; i++) if (G[i].live) mc_fail("C28,C29", "the result of lookup %d is never released", i);
    if (mc_nfd) mc_fail("C28,C29", "%zu descriptors of lookups are left open", mc_nfd);
    if (mc_nlive) mc_fail("C28,C29", "%zu allocations are left after the lookups", mc_nlive);
}
void mc_setup(void) {
    mc_evprop = "C28";
    async = mc_cfg("async", 0); flt = mc_cfg("flt", 0); slow = mc_cfg("slow", 15);
    prog_setup(); vth_setup();
    mc_hooks.end = end_; mc_hooks.write = g_write; mc_hooks.read = g_read; mc_hooks.fault = g_fault; mc_hooks.fcntl = g_fcntl;
}
