// Background work harness (C20) on virtual threads.
// ops: w work (v: pin)   W work that ends only after a coroutine opened its gate   g opens the gates   m resume of another coroutine   v suspend   i invalid calls
//      y T p k
// cfg: pins (digits; n = -1, b = a big one), ring (entries per thread, as built), nthr (threads, as built), dev preemptions, spur spurious wake-ups, flt=1 threads cannot be created
// WRAP: pthread_create pthread_detach pthread_join pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
#include "prog.h"
#include "vth.h"
static char pins[16]; static int npins, ring, nthr;
#define MAXW 40
static struct wk { int co; int64_t pin; bool gated, opened; int runs, fin; bool ret; uint64_t sub; int order; bool firm; int th; } W[MAXW]; static int nW, nrun;
static char gate;
static void workfn_(void *ud) {
    struct wk *w = ud; int k = (int)(w-W);
    if (k < 0 || k >= nW) { mc_fail("C20", "work runs with a wrong argument"); return; }
    mc_progress(); mc_log("    work %d begins on thread %d", k, vcur);
    if (vcur == 0) mc_fail("C20", "work %d runs on the thread of the runtime", k);
    if (w->runs++) mc_fail("C20", "work %d runs a second time", k);
    if (w->ret) mc_fail("C20", "work %d runs after its call returned", k);
    w->order = nrun++; w->th = vcur;
    if (w->pin >= 0) for (struct wk *o = W; o < W+nW; o++) if (o != w && o->pin >= 0 && o->pin%nthr == w->pin%nthr) {
        if (o->runs && !o->fin) mc_fail("C20", "works %d and %d of the same pin run at the same time", (int)(o-W), k);
        if (o->firm && o->sub < w->sub && !o->runs && w->firm) mc_fail("C20", "work %d runs before work %d, submitted earlier to the same pin", k, (int)(o-W));
    }
    if (neco_getid() != -1 && neco_getid() >= 0) mc_fail("C20,C21", "a background thread is inside of a coroutine");
    if (neco_yield() != NECO_PERM) mc_fail("C20,C21", "a call of the library succeeds on a background thread");
    v_point("work");
    while (w->gated && !w->opened) v_block(&gate);
    v_point("work");
    w->fin = 1; mc_progress(); mc_nontrivial();
    mc_log("    work %d ends", k);
}
static int64_t pin_of(int v) { char p = pins[v]; return p == 'n' ? -1 : p == 'b' ? INT64_C(5000000001) : p-'0'; }
static int pend_on(int64_t pin) { int n = 0; for (struct wk *o = W; o < W+nW; o++) if (!o->ret && (pin < 0 || o->pin < 0 || o->pin%nthr == pin%nthr)) n++; return n; }
static void do_work(struct cot *c, int64_t pin, bool gated) {
    if (nW >= MAXW) mc_abandon();
    bool firm = pend_on(pin) < ring;
    struct wk *w = &W[nW++]; *w = (struct wk){ .co = (int)(c-cot), .pin = pin, .gated = gated, .sub = mc_seq, .firm = firm };
    int r = (int)op_call(c, "work", K_WORK, INT64_MAX, neco_work(pin, workfn_, w));
    w->ret = true;
    if (r != NECO_OK) mc_fail("C20", "work returned %d", r);
    if (!w->runs) mc_fail("C20", "work returned before its function was run");
    if (!w->fin) mc_fail("C20", "work returned before its function finished");
    mc_outcome((uint64_t)w->order*31+(uint64_t)w->th);
    chk(c, r, INT64_MAX);
}
static int prog_expand(char o) { switch (o) { case 'w': case 'W': return npins; case 'm': return N-1; } return 1; }
static bool prog_enabled(struct cot *c, int i, char o, int v) {
    (void)i; int me = (int)(c-cot);
    if (o == 'm') { int j = v < me ? v : v+1; return j < ncot && cot[j].alive; }
    if (o == 'g') { for (int k = 0; k < nW; k++) if (W[k].gated && !W[k].opened) return true; return false; }
    return true;
}
static void open_gates(void) { for (int k = 0; k < nW; k++) W[k].opened = true; mc_progress(); v_unblock(&gate); }
static void prog_op(struct cot *c, int i, char o, int v) {
    int me = (int)(c-cot);
    switch (o) {
    case 'w': do_work(c, pin_of(v), false); break;
    case 'W': do_work(c, pin_of(v), true); break;
    case 'g': mc_log("co%d opens the gates", i); open_gates(); break;
    case 'm': { int j = v < me ? v : v+1; op_callx(c, "resume", K_OTHER, neco_resume(cot[j].id)); break; }
    case 'v': { int r = (int)op_call(c, "suspend", K_SUSP, INT64_MAX, neco_suspend()); chk(c, r, INT64_MAX); break; }
    case 'i': { int r = (int)op_callx(c, "work", K_OTHER, neco_work(0, NULL, NULL)); if (r != NECO_INVAL && r != NECO_CANCELED) mc_fail("C20,C25", "work without a function returned %d", r); break; }
    }
}
static void prog_root(void) {}
static void prog_leave(struct cot *c, int i) { (void)c; (void)i; }
static void prog_judge(void) {
    for (int k = 0; k < nW; k++) if (!W[k].ret) {
        if (W[k].fin) mc_fail("C20", "work %d has finished but its coroutine is never resumed", k);
        if (W[k].gated && !W[k].opened && W[k].runs) continue;
        // it may wait behind a closed gate on its thread
        bool behind = false;
        for (int j = 0; j < nW; j++) if (j != k && W[j].runs && !W[j].fin && W[j].gated && !W[j].opened && (W[k].pin < 0 || W[j].pin < 0 || W[j].pin%nthr == W[k].pin%nthr)) behind = true;
        if (!behind) mc_fail("C20", "work %d is never run", k);
    }
}
static void prog_inspect(struct cot *c) {
    open_gates();
    for (int t = 0; t < 3000; t++) {
        bool all = true; for (int k = 0; k < nW; k++) if (!W[k].ret) all = false;
        if (all) return;
        op_callx(c, "yield", K_OTHER, neco_yield());
    }
    mc_fail("C20", "work does not come back after its gate opened");
}
static void prog_last(struct cot *c) { (void)c; for (int k = 0; k < nW; k++) if (!W[k].ret || W[k].runs != 1) mc_fail("C20", "work %d ran %d times", k, W[k].runs); }
static void prog_reset(void) { nW = nrun = 0; vth_reset(); }
static void end_(void) {
    v_drain();
    if (vth_left()) mc_fail("C20,C29", "a thread is left at the end of the runtime");
}
static bool w_fault(int kind) { if (kind == F_PTHREAD_CREATE && !draining && mc_dev(2)) { mc_log("    (no thread)"); mc_nontrivial();
        int64_t id = neco_getid(); for (int k = 0; k < nW; k++) if (!W[k].ret && cot[W[k].co].id == id) W[k].firm = false; // it is submitted again later, like with a full queue
        return true; } return false; }
static bool exempt(int i) { return cot[i].kind == K_WORK; }
void mc_setup(void) {
    snprintf(pins, sizeof pins, "%s", mc_cfgs("pins", "0")); npins = (int)strlen(pins);
#ifdef NECO_MAXRINGSIZE
    ring = NECO_MAXRINGSIZE;
#else
    ring = 32;
#endif
#ifdef NECO_MAXWORKERS
    nthr = NECO_MAXWORKERS;
#else
    nthr = 64;
#endif
    prog_setup(); vth_setup();
    mc_hooks.end = end_; mc_hooks.dlexempt = exempt; if (mc_cfg("flt", 0)) mc_hooks.fault = w_fault;
}
