// Life cycle harness: start/join/exit/ids (C11), suspend/resume (C12), scheduling
// order (C13), time (C14), cancelation (C15).
// ops: n start child  j join  J join_dl  v suspend  V suspend_dl  m resume  e exit
//      c cleanup scope  d disable cancelation  D enable  a async  i inline
//      k cancel  K cancel_dl  y yield  Y 30 yields  p sleep 1 unit  q sleep 2 units  T tick  z sleep in the past
// cfg: n initial coroutines, m at most, per, budget, unit, tg=<targets: a alive d dead s self u unknown>,
//      async, argc (largest argument count of children), past, hop (handlers yield)
#include "mc.h"
#define MAXC 24
static int N, M, per, budget, unit, left_total, nrunning, inspecting, maxargc, hop, past;
static bool draining, dfltasync;
static char tg[16];
static int64_t dl_in(int k) { return vt_now/(unit*MS)*(unit*MS) + (int64_t)k*unit*MS; }
struct start { int argc; void *av[40]; int64_t starter; bool taken; int co; };
static struct start S[MAXC+4]; static int nS;
struct life {
    bool async, disabled, exiting, dying, popping;
    int hs[8], nh;                 // handler stack (tokens)
    int must, may;                 // cancelations that must / may be reported
    bool resumed;                  // current suspend was resumed
    bool susdone;                  // a resume found it no longer suspended
    bool due;                      // join: the target ended while nothing else was due
    int ops;
    uint64_t yseq;
    bool inhandler;
};
static struct life L[MAXCO];
static struct cop { int by, target; bool opt, claimed, done; } C[256]; static int nC;
static int hseq, bn, bdone;

static int opt_inflight(int j) { int n = 0; for (int k = 0; k < nC; k++) if (!C[k].done && C[k].opt && C[k].target == j) n++; return n; }
static void report(struct cot *c, const char *what) { // coroutine c saw a cancelation
    int me = (int)(c-cot); struct life *l = &L[me];
    int o = opt_inflight(me);
    if (l->must+l->may+o == 0) mc_fail("C15", "coroutine %d: %s reports canceled but nobody canceled it", me, what);
    bool sure = l->must > 0;
    l->must = l->may = 0;
    for (int k = 0; k < nC; k++) if (!C[k].done && C[k].opt && C[k].target == me) C[k].claimed = true;
    (void)sure;
    mc_nontrivial();
}
static bool will_fail(int i) { return L[i].must+L[i].may+opt_inflight(i) > 0 || (cot[i].dl != INT64_MAX && cot[i].dl <= vt_now); }
static int pend(int i) { return L[i].disabled ? 0 : L[i].must; }
static void chk(struct cot *c, int r, int64_t dl) {
    int me = (int)(c-cot);
    if (r == NECO_CANCELED) {
        report(c, c->op);
        if (L[me].async) mc_fail("C15,C11", "coroutine %d goes on after %s was canceled in asynchronous mode", me, c->op);
    } else if (r == NECO_TIMEDOUT) {
        if (dl == INT64_MAX || vt_now <= dl) mc_blame = c->kind, mc_fail("C14", "coroutine %d: %s reports a timeout before its deadline", me, c->op);
        mc_nontrivial();
    } else if (r == NECO_OK && c->pend0 && !L[me].disabled)
        mc_blame = c->kind, mc_fail("C15", "coroutine %d: %s began with a cancelation pending but does not report it", me, c->op);
    mc_outcome((uint64_t)(r+200)*131 + (uint64_t)c->kind*7 + (uint64_t)me);
    mc_stats_upper();
}
static void ended(struct cot *c) {
    int me = (int)(c-cot);
    for (int k = 0; k < ncot; k++) if (cot[k].alive && cot[k].busy && cot[k].kind == K_OTHER && cot[k].a == 'j' && cot[k].b == me)
        L[k].due = !will_fail(k);
    nrunning--;
    L[me].dying = true;
    cot_exit(c);
}
static void alldone(struct cot *c) { (void)c; if (nrunning == 1 && !inspecting) { inspecting = 2; mc_stats_exact(0); } }
static void run_handler(void *arg) {
    int tok = (int)(intptr_t)arg;
    // whose handler is it?
    int64_t id = neco_getid(); int me = -1;
    for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].id == id) me = i;
    if (me < 0) mc_fail("C11,C15", "clean-up handler %d runs in an unknown or finished coroutine", tok);
    struct life *l = &L[me];
    if (!l->nh || l->hs[l->nh-1] != tok) mc_fail("C15,C11", "clean-up handler %d runs out of order or twice (%d expected)", tok, l->nh ? l->hs[l->nh-1] : -1);
    l->nh--;
    l->yseq = 0;
    mc_log("co%d handler %d", me, tok);
    if (hop) {
        bool wb = cot[me].busy; const char *op = cot[me].op; int kd = cot[me].kind; int64_t dl = cot[me].dl; bool mr = cot[me].mustrun; int a = cot[me].a;
        cot[me].a = 0;
        bool pp = l->popping; l->popping = false; if (!pp) l->inhandler = true;
        for (int i = 0; i < hop; i++) op_callx(&cot[me], "yield in handler", K_OTHER, neco_yield());
        l->inhandler = false;
        cot[me].busy = wb; cot[me].op = op; cot[me].kind = kd; cot[me].dl = dl; cot[me].mustrun = mr; cot[me].a = a;
    }
    mc_outcome((uint64_t)tok+77);
}
static void base_handler(void *arg) {
    struct cot *c = arg; int me = (int)(c-cot); struct life *l = &L[me];
    if (!c->alive) mc_fail("C11", "a finished coroutine runs on");
    if (l->inhandler) mc_fail("C15,C11", "a clean-up handler of coroutine %d was not run to its end", me);
    if (l->nh) mc_fail("C15,C11", "coroutine %d ended without running %d of its clean-up handlers", me, l->nh);
    if (!l->exiting) {
        if (!l->async) mc_fail("C15,C11", "coroutine %d was ended although its cancelation mode is inline", me);
        report(c, "ending");
        mc_log("co%d ended by cancelation in %s", me, c->op ? c->op : "?");
    }
    c->busy = false;
    alldone(c);
    ended(c);
}
static void do_yield(struct cot *c, int n) {
    int me = (int)(c-cot);
    for (int i = 0; i < n; i++) {
        op_beginx(c, "yield", K_OTHER, INT64_MAX);
        L[me].yseq = c->inv;
        int r = neco_yield();
        op_end(c, r);
        if (r != NECO_OK) mc_fail("C13", "yield returned %d", r);
        for (int k = 0; k < ncot; k++) if (k != me && cot[k].alive && cot[k].busy && L[k].yseq && L[k].yseq < L[me].yseq)
            mc_fail("C13", "coroutine %d gets control back before coroutine %d, which yielded earlier", me, k);
        L[me].yseq = 0;
        if (L[me].async && L[me].must) mc_fail("C15", "coroutine %d runs on although it was canceled in asynchronous mode", me);
    }
}
static void body(int argc, void **argv);
static void do_start(struct cot *c, int argc, bool arr) {
    if (nS >= MAXC) mc_abandon();
    struct start *s = &S[nS++]; int k = nS;
    memset(s, 0, sizeof *s); s->argc = argc; s->starter = c ? c->id : 0; s->co = -1;
    for (int i = 0; i < argc; i++) s->av[i] = (void*)(intptr_t)(0x100000*k + 0x100*i + 7);
    if (c) op_beginx(c, "start", K_OTHER, INT64_MAX);
    int r;
    if (arr) { void *av[40]; memcpy(av, s->av, sizeof av); r = neco_startv(body, argc, av); memset(av, 0xEE, sizeof av); }
    else {
        void **a = s->av;
        r = neco_start(body, argc, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19]);
    }
    if (!c) { if (r != NECO_OK) mc_fail("*", "neco_start returned %d", r); return; }
    op_end(c, r);
    if (r != NECO_OK) mc_fail("C11", "neco_start returned %d", r);
    if (!s->taken) mc_fail("C13,C11", "the started coroutine did not run before start returned");
    if (neco_lastid() != cot[s->co].id) mc_fail("C11", "lastid is %lld after starting coroutine %lld", (long long)neco_lastid(), (long long)cot[s->co].id);
    mc_stats_upper();
}
static int64_t idof(int j) { return j >= ncot ? INT64_C(987654321) : cot[j].id; }
static void do_join(struct cot *c, int j, int64_t dl) {
    int me = (int)(c-cot); bool self = j == me, dead = j >= ncot || !cot[j].alive;
    if (self || dead) op_beginx(c, "join", K_OTHER, INT64_MAX); else op_begin(c, dl == INT64_MAX ? "join" : "join_dl", K_OTHER, dl);
    c->a = 'j'; c->b = j; L[me].due = false;
    bool clean = L[me].must+L[me].may+opt_inflight(me) == 0 && dl > vt_now;
    int r = dl == INT64_MAX ? neco_join(idof(j)) : neco_join_dl(idof(j), dl);
    c->a = 0;
    op_end(c, r);
    if (self) {
        if (r != NECO_PERM && clean) mc_fail("C11", "joining oneself returned %d", r);
        if (r != NECO_PERM) chk(c, r, dl);
        return;
    }
    if (dead) { if (r != NECO_OK) mc_fail("C11", "joining a finished or unknown coroutine returned %d", r); return; }
    if (r == NECO_OK) { if (cot[j].alive) mc_fail("C11", "join returned success although coroutine %d is still running", j); mc_nontrivial(); }
    else if (r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C11", "join returned %d", r);
    else if (L[me].due) mc_fail("C11,C15", "join returned %d although its target had already finished", r);
    chk(c, r, dl);
}
static void do_suspend(struct cot *c, int64_t dl) {
    int me = (int)(c-cot); struct life *l = &L[me];
    l->resumed = l->susdone = false;
    op_begin(c, dl == INT64_MAX ? "suspend" : "suspend_dl", K_SUSP, dl);
    int r = dl == INT64_MAX ? neco_suspend() : neco_suspend_dl(dl);
    op_end(c, r);
    if (r == NECO_OK && !l->resumed) mc_fail("C12", "suspend of coroutine %d returned success but nobody resumed it", me);
    if (r != NECO_OK && l->resumed) mc_fail("C12", "suspend of coroutine %d returned %d although a resume succeeded", me, r);
    if (r != NECO_OK && r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C12", "suspend returned %d", r);
    if (r == NECO_OK) mc_nontrivial();
    chk(c, r, dl);
}
static void do_resume(struct cot *c, int j) {
    int me = (int)(c-cot); int exp; // expected, 1: ambiguous
    if (j >= ncot || !cot[j].alive) exp = NECO_NOTFOUND;
    else if (j == me || !cot[j].busy || cot[j].kind != K_SUSP || L[j].resumed) exp = NECO_NOTSUSPENDED;
    else if (will_fail(j)) exp = 1;
    else exp = NECO_OK;
    uint64_t inv = j < ncot ? cot[j].inv : 0;
    if (exp == NECO_OK || exp == 1) L[j].resumed = true;
    op_beginx(c, "resume", K_OTHER, INT64_MAX);
    int r = neco_resume(idof(j));
    op_end(c, r);
    if (exp == 1) { if (r != NECO_OK) { if (cot[j].busy && cot[j].inv == inv) L[j].resumed = false; } if (r != NECO_OK && r != NECO_NOTSUSPENDED) mc_fail("C12", "resume returned %d", r); }
    else if (r != exp) mc_fail("C12", "resume of coroutine %d returned %d instead of %d", j, r, exp);
    if (r == NECO_OK) {
        if (exp == NECO_OK && cot[j].alive && cot[j].busy && cot[j].inv == inv) mc_fail("C13,C12", "resume returned before coroutine %d got control", j);
        mc_nontrivial();
    }
    mc_stats_upper();
}
static void do_cancel(struct cot *c, int j, int64_t dl) {
    int me = (int)(c-cot); struct life *l = &L[me];
    if (nC >= 250) mc_abandon();
    struct cop *p = &C[nC++]; *p = (struct cop){ .by = me, .target = j };
    bool dead = j >= ncot || !cot[j].alive;
    bool selfpend = l->must+l->may+opt_inflight(me) > 0 || dl <= vt_now;
    bool en = !dead && !L[j].disabled && !L[j].inhandler;
    uint64_t inv = dead ? 0 : cot[j].inv; bool blocked = !dead && j != me && cot[j].busy && !cot[j].mustrun && cot[j].a != 'k'; // a canceler yields once more after its target ran
    p->opt = !dead && (!en || selfpend);
    if (!dead && en && !selfpend) L[j].must++;
    if (dead || en) op_beginx(c, dl == INT64_MAX ? "cancel" : "cancel_dl", K_OTHER, INT64_MAX);
    else { op_begin(c, dl == INT64_MAX ? "cancel" : "cancel_dl", K_OTHER, dl); c->a = 'k'; c->b = j; }
    mc_log("co%d cancels co%d%s", me, j, dead ? " (dead)" : en ? "" : " (disabled)");
    int r = dl == INT64_MAX ? neco_cancel(idof(j)) : neco_cancel_dl(idof(j), dl);
    c->a = 0;
    op_end(c, r);
    p->done = true;
    if (dead && r != NECO_NOTFOUND) mc_fail("C15", "cancel of an unknown coroutine returned %d", r);
    if (!dead && en && !selfpend && r != NECO_OK) {
        if (!(r == NECO_CANCELED)) mc_fail("C15", "cancel of coroutine %d returned %d", j, r);
        else mc_fail("C15", "cancel of coroutine %d reports canceled", j);
    }
    if (!dead && r == NECO_NOTFOUND && cot[j].alive) mc_fail("C15", "cancel reports not-found but coroutine %d lives", j);
    if (r == NECO_OK && blocked && en && cot[j].alive && cot[j].busy && cot[j].inv == inv) mc_fail("C13,C15", "cancel returned before coroutine %d got control", j);
    if (p->opt && r == NECO_OK && cot[j].alive) { if (p->claimed) L[j].may++; else L[j].must++; }
    if (r != NECO_OK && r != NECO_NOTFOUND && r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C15", "cancel returned %d", r);
    if (r == NECO_CANCELED || r == NECO_TIMEDOUT) chk(c, r, dl);
    if (r == NECO_OK) mc_nontrivial();
    if (j == me && L[me].async && r == NECO_OK && L[me].must) mc_fail("C15", "coroutine %d runs on after canceling itself", me);
}
static void do_sleep(struct cot *c, int64_t dl) {
    int r = (int)op_call(c, "sleep", K_SLEEP, dl, neco_sleep_dl(dl));
    if (r == NECO_OK && vt_now < dl) mc_fail("C14", "sleep returned early");
    if (r == NECO_OK) mc_nontrivial();
    if (r != NECO_OK && r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C14", "sleep returned %d", r);
    chk(c, r, dl);
}
static struct { char o; int v; } tab[96]; static int ntab;
static bool target_ok(int me, int j) {
    if (j == M) return strchr(tg, 'u') != NULL;
    if (j >= ncot) return false;
    if (j == me) return strchr(tg, 's') != NULL;
    return strchr(tg, cot[j].alive ? 'a' : 'd') != NULL;
}
static void scope(struct cot *c, int depth) {
    int me = (int)(c-cot); struct life *l = &L[me];
    while (l->ops < per && left_total > 0 && !draining) {
        int en[96], ne = 0;
        for (int k = 0; k < ntab; k++) {
            bool ok = true;
            switch (tab[k].o) {
            case 'n': ok = nS < M; break;
            case 'j': case 'J': case 'm': case 'k': case 'K': ok = target_ok(me, tab[k].v); break;
            case 'c': ok = depth < 3; break;
            case 'd': ok = !l->disabled; break;
            case 'D': ok = l->disabled; break;
            case 'a': ok = !l->async; break;
            case 'i': ok = l->async; break;
            }
            if (ok) en[ne++] = k;
        }
        int k = mc_choose(ne+1);
        if (k == ne) return;
        k = en[k];
        left_total--; l->ops++;
        int v = tab[k].v, o;
        int tgt = v == M ? 60 : v;
        switch (tab[k].o) {
        case 'y': do_yield(c, 1); break;
        case 'Y': do_yield(c, 30); break;
        case 'T': vt_now += unit*MS; mc_log("co%d spends %d ms", me, unit); break;
        case 'p': do_sleep(c, dl_in(1)); break;
        case 'q': do_sleep(c, dl_in(2)); break;
        case 'z': do_sleep(c, vt_now - 5*MS); break;
        case 'n': do_start(c, v, nS & 1); break;
        case 'j': do_join(c, tgt, INT64_MAX); break;
        case 'J': do_join(c, tgt, past ? vt_now - 5*MS : dl_in(1)); break;
        case 'v': do_suspend(c, INT64_MAX); break;
        case 'V': do_suspend(c, past ? vt_now - 5*MS : dl_in(1)); break;
        case 'm': do_resume(c, tgt); break;
        case 'k': do_cancel(c, tgt, INT64_MAX); break;
        case 'K': do_cancel(c, tgt, past ? vt_now - 5*MS : dl_in(1)); break;
        case 'd': if (neco_setcancelstate(NECO_CANCEL_DISABLE, &o) || o != NECO_CANCEL_ENABLE) mc_fail("C15", "setcancelstate"); l->disabled = true; mc_log("co%d disables", me); break;
        case 'D': if (neco_setcancelstate(NECO_CANCEL_ENABLE, &o) || o != NECO_CANCEL_DISABLE) mc_fail("C15", "setcancelstate"); l->disabled = false; mc_log("co%d enables", me); break;
        case 'a': if (neco_setcanceltype(NECO_CANCEL_ASYNC, &o) || o != NECO_CANCEL_INLINE) mc_fail("C15", "setcanceltype"); l->async = true; mc_log("co%d async", me); break;
        case 'i': if (neco_setcanceltype(NECO_CANCEL_INLINE, &o) || o != NECO_CANCEL_ASYNC) mc_fail("C15", "setcanceltype"); l->async = false; break;
        case 'e':
            l->exiting = true; mc_log("co%d exits", me); mc_nontrivial();
            neco_exit();
            mc_fail("C11", "coroutine %d runs on after neco_exit", me);
            break;
        case 'c': {
            int ex, tok = ++hseq; l->hs[l->nh++] = tok;
            neco_cleanup_push(run_handler, (void*)(intptr_t)tok);
            scope(c, depth+1);
            ex = mc_choose(2);
            if (!ex) l->nh--;
            l->popping = true;
            neco_cleanup_pop(ex);
            l->popping = false;
            if (ex && l->nh && l->hs[l->nh-1] == tok) mc_fail("C15,C11", "popping a clean-up handler with execute did not run it");
            break; }
        }
    }
}
static void body(int argc, void **argv) {
    struct cot *c = cot_new(); int me = (int)(c-cot); struct life *l = &L[me];
    memset(l, 0, sizeof *l);
    struct start *s = NULL;
    for (int i = 0; i < nS; i++) if (!S[i].taken) { s = &S[i]; break; }
    if (!s) mc_fail("C11", "a coroutine runs more often than it was started");
    s->taken = true; s->co = me;
    nrunning++;
    if (argc != s->argc) mc_fail("C11", "coroutine got %d arguments instead of %d", argc, s->argc);
    for (int i = 0; i < argc; i++) if (argv[i] != s->av[i]) mc_fail("C11", "argument %d of the coroutine is wrong", i);
    if (c->id <= 0) mc_fail("C11", "coroutine id %lld", (long long)c->id);
    for (int i = 0; i < me; i++) if (cot[i].id == c->id) mc_fail("C11", "coroutine id %lld is used twice", (long long)c->id);
    if (neco_starterid() != s->starter) mc_fail("C11", "starterid is %lld instead of %lld", (long long)neco_starterid(), (long long)s->starter);
    if (neco_lastid() != 0) mc_fail("C11", "a coroutine that started nothing reports lastid %lld", (long long)neco_lastid());
    int o;
    if (neco_setcanceltype(dfltasync ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, &o) || o != NECO_CANCEL_ASYNC) mc_fail("C11,C15", "a new coroutine has cancelation type %d", o);
    if (neco_setcancelstate(NECO_CANCEL_ENABLE, &o) || o != NECO_CANCEL_ENABLE) mc_fail("C11,C15", "a new coroutine has cancelation state %d", o);
    l->async = dfltasync;
    char b[8]; int r = neco_gen_yield(b);
    if (r != NECO_NOTGENERATOR) mc_fail("C11,C06", "gen_yield in a plain coroutine returned %d", r);
    r = neco_signal_wait();
    if (r != NECO_NOSIGWATCH) mc_fail("C11,C19", "signal_wait without a watch returned %d", r);
    neco_cleanup_push(base_handler, c);
    if (me == 0) for (int j = 1; j < N; j++) do_start(c, j <= maxargc ? j : 0, j & 1);
    scope(c, 0);
    if (!c->alive) mc_fail("C11", "a finished coroutine runs on");
    if (l->nh) mc_fail("C11", "internal: handler stack");
    neco_cleanup_pop(0);
    for (int i = 0; i < argc; i++) if (argv[i] != s->av[i]) mc_fail("C11,C22", "argument %d of the coroutine changed while it ran", i);
    if (argc && neco_starterid() != s->starter) mc_fail("C11", "starterid changed");
    alldone(c);
    ended(c);
}
static void inspector(int argc, void **argv) {
    (void)argc; (void)argv;
    struct cot *c = cot_new(); int me = (int)(c-cot);
    memset(&L[me], 0, sizeof L[me]);
    int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    mc_stats_exact(0);
    for (int t = 0; t < 4; t++) {
        for (int i = 0; i < me; i++) if (cot[i].alive && cot[i].busy && cot[i].kind == K_SUSP) do_resume(c, i);
        for (int i = 0; i < me; i++) if (cot[i].alive && cot[i].busy && !L[i].disabled && !L[i].inhandler) do_cancel(c, i, INT64_MAX);
        for (int k = 0; k < 12; k++) op_callx(c, "yield", K_OTHER, neco_yield());
    }
    bool dis = false;
    for (int i = 0; i < me; i++) if (cot[i].alive) {
        if (L[i].disabled) dis = true;
    }
    for (int i = 0; i < me && !dis; i++) if (cot[i].alive) mc_fail("C15,C12,C29", "coroutine %d blocked in %s ignores a cancelation", i, cot[i].op);
    if (dis) mc_abandon();
    mc_stats_exact(0);
    cot_exit(c);
}
static void idle(void) {            // nobody can run: judge the blocked set
    if (inspecting) return;
    for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].busy) {
        if (L[i].must && !L[i].disabled) mc_blame = cot[i].kind, mc_fail("C15", "coroutine %d was canceled but stays blocked in %s", i, cot[i].op);
        if (cot[i].a == 'k') {
            int j = cot[i].b;
            if (!cot[j].alive) mc_fail("C15", "coroutine %d waits to cancel coroutine %d, which has ended", i, j);
            if (!L[j].disabled) mc_fail("C15", "coroutine %d waits to cancel coroutine %d, which has cancelation enabled", i, j);
        }
        if (cot[i].a == 'j' && !cot[cot[i].b].alive) mc_fail("C11", "coroutine %d waits to join coroutine %d, which has ended", i, cot[i].b);
        if (cot[i].kind == K_SUSP && L[i].resumed) mc_fail("C12", "coroutine %d was resumed but stays suspended", i);
    }
}
static void quiesce(void) {
    if (mc_notrack) mc_fail("*", "bulk: %d coroutines are stuck", bn-bdone);
    if (inspecting) mc_fail("*", "blocked for good while finishing");
    idle();
    mc_nontrivial();
    for (int i = 0; i < ncot; i++) mc_outcome(cot[i].alive ? (uint64_t)cot[i].kind+(uint64_t)cot[i].a*16 : 0);
    inspecting = 1; draining = true;
    if (neco_start(inspector, 0) != NECO_OK) mc_abandon();
}
static void bulk_child(int argc, void **argv);
static void bulk(void);

static void run(void) {
    if (mc_cfg("bulk", 0)) { bulk(); return; }
    for (int k = mc_cfg("runs", 1); k; k--) {
        do_start(NULL, 0, false);
        for (int i = 0; i < ncot; i++) if (cot[i].alive) mc_fail("C11", "the outermost start returned although coroutine %d has not finished", i);
        for (int i = 0; i < nS; i++) if (!S[i].taken) mc_fail("C11", "the outermost start returned although a started coroutine never ran");
        int64_t r = neco_getid(); if (r != NECO_PERM) mc_fail("C11,C25", "getid outside of a coroutine returned %lld", (long long)r);
        if (k > 1) mc_next_runtime();
    }
}
// ---- bulk: many coroutines at once (deterministic sweep over sizes chosen exhaustively)
static int bkind, bstate[4096]; static int64_t bid[4096], bwhen[4096]; static int border[4096], bno;
static int64_t bdelay(int k) { return (int64_t)((k*7919u) % 97 + 1) * 3 * MS; }
static void bulk_child(int argc, void **argv) {
    int k = (int)(intptr_t)argv[0]; (void)argc;
    if (bstate[k]++) mc_fail("C11", "bulk: coroutine %d runs twice", k);
    bid[k] = neco_getid(); mc_progress();
    int r = 0;
    switch (bkind) {
    case 0: { int64_t dl = VT0 + 20*MS + bdelay(k); bwhen[k] = dl; r = neco_sleep_dl(dl); mc_progress(); if (r || vt_now < dl) mc_fail("C14", "bulk: sleep %d returned %d at %lld", k, r, (long long)(vt_now-dl)); 
              if (vt_now > dl + 4*MS) mc_fail("C14", "bulk: sleep %d is %lld ns late", k, (long long)(vt_now-dl)); break; }
    case 1: r = neco_suspend(); mc_progress(); if (r) mc_fail("C12", "bulk: suspend %d returned %d", k, r); if (bstate[k] != 2) mc_fail("C12", "bulk: suspend of %d returned without a resume", k); break;
    case 2: { int64_t dl = VT0 + 20*MS + bdelay(k); r = neco_suspend_dl(dl); mc_progress(); if (r != NECO_TIMEDOUT || vt_now < dl || vt_now > dl+4*MS) mc_fail("C14", "bulk: suspend_dl %d returned %d at %lld", k, r, (long long)(vt_now-dl)); break; }
    case 3: { int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot); r = neco_suspend_dl(VT0 + 900*MS + bdelay(k)); mc_progress(); if (r != NECO_CANCELED) mc_fail("C15", "bulk: suspend_dl %d returned %d", k, r); if (bstate[k] != 2) mc_fail("C15", "bulk: %d was not canceled", k); break; }
    }
    bstate[k] = 3; bdone++;
}
static void bulk_root(int argc, void **argv) {
    (void)argc; (void)argv;
    for (int k = 0; k < bn; k++) {
        int r = neco_start(bulk_child, 1, (void*)(intptr_t)k);
        if (r || bstate[k] != 1) mc_fail("C11,C13", "bulk: start %d returned %d", k, r);
        if (neco_lastid() != bid[k]) mc_fail("C11", "bulk: lastid");
        if (k && bid[k] <= 0) mc_fail("C11", "bulk: id");
        mc_progress();
    }
    neco_stats st; neco_getstats(&st);
    if (st.coroutines != (size_t)bn+1) mc_fail("C24,C11", "bulk: %zu coroutines reported, %d alive", st.coroutines, bn+1);
    // scattered order
    for (int i = 0; i < bn; i++) {
        int k = (int)(((unsigned)i*7919u + 13) % (unsigned)bn);
        mc_progress();
        if (bkind == 1) { bstate[k] = 2; int r = neco_resume(bid[k]); if (r) mc_fail("C12", "bulk: resume of %d returned %d", k, r); if (bstate[k] != 3) mc_fail("C12,C13", "bulk: resumed %d did not run", k);
            r = neco_resume(bid[k]); if (r != NECO_NOTFOUND) mc_fail("C12", "bulk: second resume returned %d", r); }
        if (bkind == 3) { bstate[k] = 2; int r = neco_cancel(bid[k]); if (r) mc_fail("C15", "bulk: cancel of %d returned %d", k, r); if (bstate[k] != 3) mc_fail("C15", "bulk: canceled %d did not run", k); }
        if (bkind == 0 && bstate[k] == 1) { int r = neco_resume(bid[k]); if (r != NECO_NOTSUSPENDED) mc_fail("C12", "bulk: resume of a sleeping coroutine returned %d", r); }
    }
    for (int i = 0; i < bn; i++) {
        int k = (int)(((unsigned)i*104729u + 5) % (unsigned)bn);
        mc_progress();
        int r = neco_join(bid[k]);
        if (r) mc_fail("C11", "bulk: join of %d returned %d", k, r);
        if (bstate[k] != 3) mc_fail("C11", "bulk: join of %d returned before it finished", k);
    }
    neco_getstats(&st);
    if (st.coroutines != 1 || st.sleepers || st.suspended) mc_fail("C24", "bulk: statistics after the end: %zu alive %zu sleeping %zu suspended", st.coroutines, st.sleepers, st.suspended);
}
static void bulk(void) {
    static const int sizes[] = { 1, 2, 3, 16, 17, 33, 100, 257, 513, 600, 1025, 1500 };
    bkind = mc_choose(4);
    bn = sizes[mc_choose((int)(sizeof sizes/sizeof *sizes))];
    memset(bstate, 0, sizeof bstate); bdone = 0;
    mc_notrack = 2;
    int r = neco_start(bulk_root, 0);
    mc_notrack = 0;
    if (r != NECO_OK || bdone != bn) mc_fail("C11", "bulk: start returned %d, %d of %d finished", r, bdone, bn);
    mc_nontrivial(); mc_outcome((uint64_t)bn*10+(uint64_t)bkind);
}
static void reset(void) {
    mc_pend = pend; memset(L, 0, sizeof L); left_total = budget; draining = false; nrunning = 0; inspecting = 0; nS = nC = 0; hseq = 0; mc_notrack = 0;
}
void mc_setup(void) {
    N = mc_cfg("n", 2); M = mc_cfg("m", N); per = mc_cfg("per", 3); budget = mc_cfg("budget", 6); unit = mc_cfg("unit", 10);
    maxargc = mc_cfg("argc", 0); hop = mc_cfg("hop", 0); past = mc_cfg("past", 0); dfltasync = mc_cfg("async", 0);
    snprintf(tg, sizeof tg, "%s", mc_cfgs("tg", "ad"));
    char ops[100]; snprintf(ops, 100, "%s", mc_cfgs("ops", ""));
    ntab = 0;
    for (const char *o = ops; *o; o++) {
        int nv = 1, v0 = 0;
        if (strchr("jJmkK", *o)) nv = M+1;
        if (*o == 'n') { v0 = mc_cfg("argc0", 0); nv = maxargc+1; }
        for (int v = v0; v < nv; v++) { tab[ntab].o = *o; tab[ntab].v = v; ntab++; }
    }
    mc_hooks.run = run; mc_hooks.quiesce = quiesce; mc_hooks.idle = idle; mc_hooks.reset = reset;
}
