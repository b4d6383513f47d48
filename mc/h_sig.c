// Signal harness (C19). Signals arrive
//   - at any instant: the handler the library installed is called before any access of the library to
//     memory the handler itself touches (other instants are equivalent to the next such one), up to cfg dev
//     times per execution, also while a handler for another signal runs;
//   - while the library sleeps or polls for events (cfg arr=<how many>);
//   - raised by a coroutine (op a).
// ops: w u watch / unwatch signal v   s S wait for a signal / with a deadline   a raise signal v
//      Y many yields   y T p k
// cfg: fin=1 signals arrive also while the program is being finished, sigs=<letters U SIGUSR1, I SIGINT, P SIGPIPE, A SIGALRM>, ev=1 a further coroutine waits for a descriptor, start=<letters>
#include <fcntl.h>
#define PROG_EXTRA 1
#include "prog.h"
static int fin, S[4], ns, arr, arr0, ev, ylen;
static const int ALL[] = { SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGPIPE, SIGUSR1, SIGUSR2, SIGALRM, SIGILL, SIGFPE, SIGSEGV, SIGBUS, SIGTRAP };
static uint32_t wmask[MAXCO], leaving;        // watched by each coroutine; mask of signals whose watch is being dropped or added right now
static int pmin[32], pmax[32];                // signals that arrived and were not yet returned
static bool mayexit[32];                      // arrived unwatched or unwatched since
static int waited[MAXCO];
static bool early[32];                        // the last arrival was not in the middle of the library's code
static int cnt(int s) { int n = 0; for (int i = 0; i < ncot; i++) if (cot[i].alive && (wmask[i] >> s & 1)) n++; return n; }
static void dflt(int s) { (void)s; }
static stack_t stk0; static char stkmem[65536];

// ------------------------------------------------------------------ injection
#define HN 4096
static uintptr_t H[HN]; static int nh; static bool learning, quiet;
static int depth, cur; static uint32_t blocked;
static bool hhas(uintptr_t a) { for (uintptr_t x = a/8*7919, i = 0; i < HN; i++, x++) { uintptr_t v = H[x%HN]; if (v == a/8+1) return true; if (!v) return false; } return false; }
static void hadd(uintptr_t a) { if (hhas(a) || nh > HN/2) return; uintptr_t x = a/8*7919; while (H[x%HN]) x++; H[x%HN] = a/8+1; nh++; }
static bool installed(int s) { struct sigaction a; mc_sigtab_get(s, &a); return a.sa_handler != dflt; }
static void arrive(int s, const char *how) {
    struct sigaction a; mc_sigtab_get(s, &a);
    stack_t k = mc_sigstk_get();
    if ((a.sa_flags & SA_ONSTACK) && !(k.ss_flags & SS_DISABLE) && k.ss_sp != stkmem && !mc_live(k.ss_sp)) mc_fail("C19,C29", "a signal arrives on an alternate stack that was released");
    if (!(a.sa_flags & SA_SIGINFO)) mc_fail("C19", "the handler was installed without SA_SIGINFO");
    bool amb = leaving >> s & 1; int w = cnt(s);
    if (amb) { pmax[s]++; mayexit[s] = true; }
    else if (w) { pmin[s]++; pmax[s]++; }
    early[s] = !strcmp(how, "raised") || !strcmp(how, "sleeping");
    mc_log("    signal %s arrives (%s)%s", strsignal(s), how, amb ? " while being watched or unwatched" : w ? "" : ", unwatched");
    mc_nontrivial(); mc_progress();
    uint32_t ob = blocked; int oc = cur; cur = s; depth++;
    blocked |= UINT32_C(1) << s;
    for (int i = 1; i < 32; i++) if (sigismember(&a.sa_mask, i)) blocked |= UINT32_C(1) << i;
    siginfo_t info; memset(&info, 0, sizeof info); info.si_signo = s;
    int e = errno;
    a.sa_sigaction(s, &info, NULL);
    if (errno != e) mc_fail("C19", "the signal handler changes errno");
    depth--; cur = oc; blocked = ob;
    if (!amb && !w && s != SIGPIPE) mc_fail("C19", "%s, which nobody watches, is ignored", strsignal(s));
}
static uint64_t pprog; static int npts, pmaxpts;
static void point(const char *how) {
    if (quiet || learning || (draining && !fin) || !ns || mc_cfg("dev", 0) == 0) return;
    int en[4], ne = 0;
    for (int i = 0; i < ns; i++) if (!(blocked >> S[i] & 1) && installed(S[i])) en[ne++] = S[i];
    if (!ne) return;
    // While the scheduler polls without effect its rounds repeat: two of them are enough.
    if (pprog != mc_prog) { pprog = mc_prog; npts = 0; }
    if (++npts > pmaxpts) return;
    int k = mc_dev(1+ne);
    if (k) arrive(en[k-1], how);
}
static void v_access(const void *p, size_t n, bool w, bool at) {
    (void)w; (void)at;
    uintptr_t a = (uintptr_t)p & ~(uintptr_t)7, e = (uintptr_t)p + (n ? n : 1);
    if (learning) { for (; a < e; a += 8) hadd(a); return; }
    if (n > 4096) { point("bulk"); return; }
    for (; a < e; a += 8) if (hhas(a)) { point("access"); return; }
}
static void v_at(void *a, size_t n, bool ld, bool st, int mo) { (void)ld; (void)mo; v_access(a, n, st, true); }
#include "tsan.h"
static int sig_action(int s, const struct sigaction *a, struct sigaction *o) {
    if (s < 1 || s > 31) { errno = EINVAL; return -1; }
    point("sigaction");
    if (o) mc_sigtab_get(s, o);
    if (a) mc_sigtab_set(s, (struct sigaction*)a);
    return 0;
}
static void releasing(void) { point("release"); }
static void sig_exit(int code) {
    int s = code-128;
    if (learning) return;
    if (s < 1 || s > 31) { mc_fail("C19", "the process is ended with status %d", code); mc_abandon(); }
    bool ok = mayexit[s] || (depth && cur == s && !cnt(s));
    if (!ok) mc_fail("C19", "%s ends the process although %s", strsignal(s), cnt(s) ? "it is being watched" : "it did not arrive");
    if (s == SIGPIPE) mc_fail("C19", "an unwatched SIGPIPE ends the process");
    mc_log("-- ended by %s", strsignal(s));
    mc_outcome((uint64_t)s*77); mc_abandon();
}
static uint64_t eprog; static int rounds;
static int external(void) {
    leaving = 0;
    for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].busy && cot[i].kind == K_SIG)
        for (int k = 0; k < ns; k++) if ((wmask[i] >> S[k] & 1) && pmin[S[k]] && early[S[k]])
            mc_fail("C19", "the scheduler sleeps although %s is pending, for which coroutine %d waits", strsignal(S[k]), i);
    if (eprog != mc_prog) { eprog = mc_prog; rounds = 0; }
    // A signal that came just before the library went to sleep shows up when it wakes up by itself.
    for (int i = 0; i < ns; i++) if (pmax[S[i]] && rounds < 3) { rounds++; return 1; }
    if (arr <= 0 || draining) return 0;
    int k = mc_choose(1+ns);
    if (!k) { arr = 0; return 0; }
    arr--;
    if (!installed(S[k-1])) { mc_fail("C19", "the library sleeps without having installed its signal handlers"); return 0; }
    arrive(S[k-1], "sleeping");
    return 2;
}
static void learn_co(int argc, void **argv) {
    (void)argc; (void)argv;
    for (int pass = 0; pass < 2; pass++) for (int i = 0; i < ns; i++) {
        if (pass) neco_signal_watch(S[i]);
        else if (S[i] != SIGPIPE) continue;
        struct sigaction a; mc_sigtab_get(S[i], &a);
        if (a.sa_handler == dflt) continue;
        siginfo_t info; memset(&info, 0, sizeof info);
        for (int t = 0; t < 2; t++) { learning = true; a.sa_sigaction(S[i], &info, NULL); learning = false; }
    }
    for (int i = 0; i < ns; i++) for (int t = 0; t < 2; t++) neco_signal_wait_dl(vt_now);
}
static void learn(void) { quiet = true; neco_start(learn_co, 0); quiet = false; }
static void init(void) { mc_calibrate(learn); if (mc_verbose) printf("%d words touched by the handler\n", nh); else { int f = open("/dev/null", O_WRONLY); dup2(f, 2); __real_close(f); } }

// ----------------------------------------------------------------- operations
static void turn(struct cot *c) {
    int lim = 8*ncot+40, me = (int)(c-cot);
    leaving = 0;
    for (int i = 0; i < ncot; i++) if (i != me && cot[i].alive && cot[i].busy && cot[i].kind == K_SIG) {
        bool p = false; for (int k = 0; k < ns; k++) if ((wmask[i] >> S[k] & 1) && pmin[S[k]]) p = true;
        if (!p) waited[i] = 0;
        else if (++waited[i] > lim) mc_fail("C19,C13", "coroutine %d waits for a signal that arrived and is not woken for %d turns of others", i, lim);
    }
}
static void unwatched(int s) { if (!cnt(s)) { pmin[s] = 0; if (pmax[s]) mayexit[s] = true; } }
static void do_watch(struct cot *c, int s, bool on) {
    int me = (int)(c-cot);
    bool has = wmask[me] >> s & 1;
    if (on != has) leaving |= UINT32_C(1) << s;
    op_beginx(c, on ? "watch" : "unwatch", K_OTHER, INT64_MAX);
    int r = on ? neco_signal_watch(s) : neco_signal_unwatch(s);
    op_end(c, r);
    leaving = 0;
    if (r != NECO_OK) { mc_fail("C19", "%s a signal returned %d", on ? "watching" : "unwatching", r); return; }
    if (mc_verbose) mc_log("    (%s)", strsignal(s));
    if (on) wmask[me] |= UINT32_C(1) << s; else { wmask[me] &= ~(UINT32_C(1) << s); unwatched(s); }
    mc_outcome((uint64_t)on*3+(uint64_t)me);
}
static void do_wait(struct cot *c, int64_t dl) {
    int me = (int)(c-cot); uint32_t m = wmask[me];
    waited[me] = 0;
    if (!m) op_beginx(c, "signal wait (nothing watched)", K_SIG, dl); else op_begin(c, "signal wait", K_SIG, dl);
    int r = dl == INT64_MAX ? neco_signal_wait() : neco_signal_wait_dl(dl);
    op_end(c, r);
    turn(c);
    if (r > 0) {
        if (r > 31 || !(m >> r & 1)) { mc_fail("C19", "coroutine %d receives signal %d, which it does not watch", me, r); return; }
        if (pmax[r] <= 0) mc_fail("C19", "coroutine %d receives %s, which did not arrive", me, strsignal(r));
        pmax[r]--; if (pmin[r] > 0) pmin[r]--;
    } else if (!m) {
        if (r != NECO_NOSIGWATCH) mc_fail("C19,C25", "waiting for a signal without watching one returned %d", r);
        return;
    } else if (r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C19", "waiting for a signal returned %d", r);
    chk(c, r, dl);
}
static int prog_expand(char o) { return strchr("wua", o) ? ns : 1; }
static bool prog_enabled(struct cot *c, int i, char o, int v) { (void)i; if (o == 'u') return wmask[c-cot] >> S[v] & 1; if (o == 'w') return !(wmask[c-cot] >> S[v] & 1); return true; }
static void prog_op(struct cot *c, int i, char o, int v) {
    (void)i; turn(c);
    switch (o) {
    case 'w': do_watch(c, S[v], true); break;
    case 'u': do_watch(c, S[v], false); break;
    case 's': do_wait(c, INT64_MAX); break;
    case 'S': do_wait(c, dl_in(1)); break;
    case 'a': if (installed(S[v])) arrive(S[v], "raised"); else mc_fail("C19", "the handlers are not installed while the runtime runs"); break;
    case 'Y': for (int t = 0; t < ylen; t++) { op_callx(c, "yield", K_OTHER, neco_yield()); turn(c); } break;
    }
}
static int fds[2] = {-1,-1};
static void evco(int argc, void **argv) {
    (void)argc; (void)argv;
    struct cot *c = cot_new(); int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    int r = (int)op_call(c, "wait read", K_EV, INT64_MAX, neco_wait(fds[0], NECO_WAIT_READ));
    turn(c);
    if (r == NECO_CANCELED) { if (!cpend[c-cot] && !draining) mc_fail("C15", "the descriptor wait reports canceled but nobody canceled it"); cpend[c-cot] = 0; }
    else mc_fail("C16,C19", "the descriptor wait ended with %d by itself", r);
    cot_exit(c);
}
static void prog_root(void) {
    struct cot *c = &cot[0];
    if (ev) { op_beginx(c, "start", K_OTHER, INT64_MAX); int r = neco_start(evco, 0); op_end(c, r); }
    for (const char *p = mc_cfgs("start", ""); *p && *p != ','; p++) for (int i = 0; i < ns; i++) if (S[i] == (*p == 'U' ? SIGUSR1 : *p == 'I' ? SIGINT : *p == 'P' ? SIGPIPE : SIGALRM)) do_watch(c, S[i], true);
}
static void prog_leave(struct cot *c, int i) {
    (void)i; int me = (int)(c-cot);
    turn(c);
    uint32_t m = wmask[me]; wmask[me] = 0;
    for (int s = 1; s < 32; s++) if (m >> s & 1) unwatched(s);
    leaving = m;                       // until another coroutine runs
}
static void prog_judge(void) {
    for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].busy && cot[i].kind == K_SIG)
        for (int k = 0; k < ns; k++) if ((wmask[i] >> S[k] & 1) && pmin[S[k]])
            mc_fail("C19", "coroutine %d waits for %s, which arrived %d more times than it was returned, and stays blocked", i, strsignal(S[k]), pmin[S[k]]);
}
static void prog_inspect(struct cot *c) { (void)c; for (int i = 0; i < ncot; i++) mc_outcome((uint64_t)wmask[i]); }
static void prog_last(struct cot *c) {
    int me = (int)(c-cot);
    for (int i = 0; i < ncot; i++) if (i != me && cot[i].alive && cot[i].kind == K_EV && cot[i].busy) { cpend[i]++; neco_cancel(cot[i].id); }
    for (int t = 0; t < 3; t++) op_callx(c, "yield", K_OTHER, neco_yield());
    if (!inspecting || inspecting == 2) { uint32_t m = wmask[me]; (void)m; }
}
static void prog_reset(void) {
    memset(wmask, 0, sizeof wmask); leaving = 0; memset(pmin, 0, sizeof pmin); memset(pmax, 0, sizeof pmax); memset(mayexit, 0, sizeof mayexit); memset(waited, 0, sizeof waited);
    depth = cur = 0; blocked = 0; arr = arr0; eprog = 0; rounds = 0; pprog = 0; npts = 0; quiet = learning = false;
    if (ev && fds[0] < 0) { __real_pipe(fds); dup2(fds[0], 300); dup2(fds[1], 301); __real_close(fds[0]); __real_close(fds[1]); fds[0] = 300; fds[1] = 301; __real_fcntl(300, F_SETFL, O_NONBLOCK); }
    for (size_t i = 0; i < sizeof ALL/sizeof *ALL; i++) {
        struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = dflt; a.sa_flags = (int)(i%2 ? SA_RESTART : SA_NODEFER); sigaddset(&a.sa_mask, ALL[(i+1)%8]);
        mc_sigtab_set(ALL[i], &a);
    }
    stk0 = (stack_t){ .ss_sp = stkmem, .ss_size = sizeof stkmem, .ss_flags = 0 };
    if (mc_cfg("nostk", 0)) stk0 = (stack_t){ .ss_flags = SS_DISABLE };
    mc_sigstk_set(stk0);
}
static void end(void) {
    for (size_t i = 0; i < sizeof ALL/sizeof *ALL; i++) {
        struct sigaction a; mc_sigtab_get(ALL[i], &a);
        if (a.sa_handler != dflt || a.sa_flags != (int)(i%2 ? SA_RESTART : SA_NODEFER) || !sigismember(&a.sa_mask, ALL[(i+1)%8]))
            mc_fail("C19,C29", "the handler of %s is not restored at the end of the runtime", strsignal(ALL[i]));
    }
    stack_t k = mc_sigstk_get();
    if (k.ss_flags != stk0.ss_flags || k.ss_sp != stk0.ss_sp || k.ss_size != stk0.ss_size) mc_fail("C19,C29", "the alternate signal stack is not restored at the end of the runtime");
}
void mc_setup(void) {
    mc_evprop = "C16";
    for (const char *p = mc_cfgs("sigs", "U"); *p && *p != ',' && ns < 4; p++) S[ns++] = *p == 'U' ? SIGUSR1 : *p == 'I' ? SIGINT : *p == 'P' ? SIGPIPE : SIGALRM;
    prog_setup(); mc_hooks.idle = idle;
    arr0 = mc_cfg("arr", 0); ev = mc_cfg("ev", 0); pmaxpts = mc_cfg("pts", 24); fin = mc_cfg("fin", 0); ylen = mc_cfg("ylen", 80);
    mc_hooks.external = external; mc_hooks.end = end; mc_hooks.exitnow = sig_exit; mc_hooks.init = init;
    mc_hooks.sigaction = sig_action; mc_hooks.point = releasing;
    mc_spinmax = 60;
}
