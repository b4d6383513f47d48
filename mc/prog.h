#pragma once
// Skeleton of a closed program: N coroutines, each performing up to `per`
// operations chosen from a table, `budget` operations in all.
// cfg: n, per, budget, ops=<letters>, unit (ms per tick), noauto
#include "mc.h"
#ifndef PROG_EXTRA
#define PROG_EXTRA 0         // further coroutines the harness starts itself
#endif
static int N, per, budget, unit, force, left_total, nrunning, inspecting;
static bool draining;
static int cpend[MAXCO];     // cancelations requested and not yet reported
static int prog_pend(int i) { return cpend[i]; }
static int pend_lenient;      // calls need not block, nor report a pending cancelation
static int cancel_may_wait;   // targets may have cancelation disabled
static int cextra[MAXCO];    // further reports that may follow (requests during a relock)
static uint64_t cseq[MAXCO]; // when the first of them was requested
static int64_t dl_in(int k) { return vt_now/(unit*MS)*(unit*MS) + (int64_t)k*unit*MS; }

// provided by the harness
static int  prog_expand(char o);                                  // variants of an operation
static bool prog_enabled(struct cot *c, int i, char o, int v);
static void prog_op(struct cot *c, int i, char o, int v);
static void prog_root(void);                                      // before the first operation
static void prog_leave(struct cot *c, int i);                     // coroutine i performs no more operations
static void prog_judge(void);                                     // everything blocked for good
static void prog_inspect(struct cot *c);                          // run by a fresh coroutine in the idle state
static void prog_last(struct cot *c);                             // all program coroutines have finished
static void prog_reset(void);

static void chk(struct cot *c, int r, int64_t dl) { // result codes every blocking call may return
    int me = (int)(c-cot);
    if (r == NECO_CANCELED) {
        if (cpend[me]+cextra[me] == 0) mc_blame = c->kind, mc_fail("C15", "coroutine %d: %s reports canceled but nobody canceled it", me, c->op);
        cextra[me] = c->kind == K_COND ? cpend[me]+cextra[me]-1 : 0;
        cpend[me] = 0; mc_nontrivial();
    } else if (r == NECO_TIMEDOUT) {
        if (dl == INT64_MAX || vt_now <= dl) mc_blame = c->kind, mc_fail("C14", "coroutine %d: %s reports a timeout before its deadline", me, c->op);
        mc_nontrivial();
    } else if (r >= 0 && c->pend0 && !cancel_may_wait && !pend_lenient && ((c->kind != K_OTHER && c->kind != K_WORK) || !strncmp(c->op, "wg_wait", 7)))
        mc_blame = c->kind, mc_fail("C15", "coroutine %d: %s began with a cancelation pending but does not report it", me, c->op);
    mc_outcome((uint64_t)(r+200)*131 + (uint64_t)c->kind*7 + (uint64_t)me);
    mc_stats_upper();
}
static void do_cancel(struct cot *c, int j) {
    if (j >= ncot || !cot[j].alive) return;
    int me = (int)(c-cot);
    if (!cpend[j]++) cseq[j] = mc_seq;
    if (cancel_may_wait) op_begin(c, "cancel", K_OTHER, INT64_MAX); else op_beginx(c, "cancel", K_OTHER, INT64_MAX);
    int r = (int)neco_cancel(cot[j].id);
    op_end(c, r);
    if (mc_verbose) mc_log("    (cancel of co%d)", j);
    if (r == NECO_CANCELED) {
        if (--cpend[j] < 0) cpend[j] = 0;
        if (cpend[me]+cextra[me] == 0) mc_fail("C15", "cancel reports canceled but nobody canceled the caller");
        cpend[me] = cextra[me] = 0;
    } else if (r != NECO_OK && !(cancel_may_wait && r == NECO_NOTFOUND && !cot[j].alive)) mc_fail("C15", "cancel of a living coroutine returned %d", r);
}
static void do_sleep(struct cot *c, int64_t dl) {
    int r = (int)op_call(c, "sleep", K_SLEEP, dl, neco_sleep_dl(dl));
    if (r == NECO_OK && vt_now < dl) mc_fail("C14", "sleep returned early");
    if (r == NECO_OK) mc_nontrivial();
    if (r != NECO_OK && r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C14", "sleep returned %d", r);
    chk(c, r, dl);
}
static struct { char o; int v; } tab[96]; static int ntab;
static void prog_last_checks(struct cot *c) {
    prog_last(c);
    mc_stats_exact(0);
}
static void bodyfn(int argc, void **argv);
#ifndef PROG_ENTRY
#define PROG_ENTRY(i) bodyfn, 1, (void*)(intptr_t)(i)   // how to start coroutine i
#endif
static void bodyfn(int argc, void **argv) {
    (void)argc; int i = (int)(intptr_t)argv[0];
    struct cot *c = cot_new(); int me = (int)(c-cot);
    nrunning++;
    int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    if (i == 0) {
        prog_root();
        for (int j = 1; j < N; j++) {
            op_beginx(c, "start", K_OTHER, INT64_MAX);
            int r = neco_start(PROG_ENTRY(j));
            op_end(c, r);
            if (r != NECO_OK) mc_fail("*", "neco_start returned %d", r);
        }
    }
    for (int n = 0; n < per && left_total > 0 && !draining; n++) {
        int en[96], ne = 0;
        for (int k = 0; k < ntab; k++) {
            bool ok;
            switch (tab[k].o) {
            case 'k': { int j = tab[k].v < me ? tab[k].v : tab[k].v+1; ok = j < ncot && cot[j].alive; break; }
            case 'y': case 'T': case 'p': ok = true; break;
            default: ok = prog_enabled(c, i, tab[k].o, tab[k].v);
            }
            if (ok) en[ne++] = k;
        }
        int k = force ? mc_choose(ne) : mc_choose(ne+1);
        if (k == ne) break;
        k = en[k];
        left_total--;
        switch (tab[k].o) {
        case 'y': op_callx(c, "yield", K_OTHER, neco_yield()); break;
        case 'T': vt_now += unit*MS; mc_log("co%d spends %d ms", i, unit); break;
        case 'p': do_sleep(c, dl_in(1)); break;
        case 'k': do_cancel(c, tab[k].v < me ? tab[k].v : tab[k].v+1); break;
        default: prog_op(c, i, tab[k].o, tab[k].v);
        }
    }
    prog_leave(c, i);
    nrunning--;
    if (nrunning == 0 && !inspecting) { draining = true; inspecting = 2; prog_last_checks(c); }
    cot_exit(c);
}
static void inspector(int argc, void **argv) {
    (void)argc; (void)argv;
    struct cot *c = cot_new();
    int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    mc_stats_exact(0);
    prog_inspect(c);
    int me = (int)(c-cot);
    for (int i = 0; i < me; i++) if (cot[i].alive && cot[i].busy) {
        if (!cpend[i]++) cseq[i] = mc_seq;
        op_beginx(c, "cancel", K_OTHER, INT64_MAX);
        neco_cancel(cot[i].id);
        op_end(c, 0);
    }
    for (int t = 0; t < 12; t++) op_callx(c, "yield", K_OTHER, neco_yield());
    for (int i = 0; i < me; i++) if (cot[i].alive) mc_blame = cot[i].kind, mc_fail("C15,C29", "coroutine %d blocked in %s ignores a cancelation", i, cot[i].op);
    prog_last_checks(c);
    cot_exit(c);
}
static void idle(void) {            // nobody can run: judge the blocked set
    if (inspecting) return;
    for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].busy && cpend[i] > 0 && !(mc_hooks.dlexempt && mc_hooks.dlexempt(i)))
        mc_blame = cot[i].kind, mc_fail("C15", "coroutine %d was canceled but stays blocked in %s", i, cot[i].op);
    prog_judge();
}
static void quiesce(void) {
    if (inspecting) mc_fail("*", "blocked for good while finishing (%s)", ncot ? "see trace" : "");
    idle();
    mc_nontrivial();
    for (int i = 0; i < ncot; i++) mc_outcome(cot[i].alive ? (uint64_t)cot[i].kind : 0);
    inspecting = 1; draining = true;
    if (neco_start(inspector, 0) != NECO_OK) mc_abandon();
}
static void run_once(void) {
    int r = neco_start(PROG_ENTRY(0));
    if (r != NECO_OK) mc_fail("*", "neco_start returned %d", r);
    for (int i = 0; i < ncot; i++) if (cot[i].alive) mc_fail("C11", "the outermost start returned although coroutine %d has not finished", i);
}
static void run(void) { // cfg runs: so many runtimes one after another
    for (int k = mc_cfg("runs", 1); k; k--) { run_once(); if (k > 1) mc_next_runtime(); }
}
static void reset(void) {
    mc_pend = prog_pend; memset(cpend, 0, sizeof cpend); memset(cextra, 0, sizeof cextra); left_total = budget; draining = false; nrunning = 0; inspecting = 0;
    prog_reset();
}
static void prog_setup(void) {
    N = mc_cfg("n", 3); force = mc_cfg("force", 0); per = mc_cfg("per", 3); budget = mc_cfg("budget", 6); unit = mc_cfg("unit", 10);
    char ops[100]; snprintf(ops, 100, "%s", mc_cfgs("ops", ""));
    ntab = 0;
    for (const char *o = ops; *o; o++) {
        int nv = *o == 'k' ? N+PROG_EXTRA-1 : *o == 'y' || *o == 'T' || *o == 'p' ? 1 : prog_expand(*o);
        for (int v = 0; v < nv; v++) { tab[ntab].o = *o; tab[ntab].v = v; ntab++; }
    }
    mc_hooks.run = run; mc_hooks.quiesce = quiesce; mc_hooks.reset = reset;
}
