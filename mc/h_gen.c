// Generator harness (C06).
// consumer ops: N next  M next_dl  c close  R retain+release  y T p k
// producer ops (cfg pops): Y yield  D yield_dl  y p x(next of the following generator)  e exit
// cfg: g generators, n consumers (coroutine 0 starts the generators), msz, pper, pasync, z=<size of extra generators recycled before>
#define PROG_EXTRA ngen
static int ngen;
#include "prog.h"
#define MAXV 60
struct val { int gen; bool done; int res; bool got; int got_by; uint64_t inv, gotseq; int64_t dl; };
static struct val V[MAXV]; static int nV, msz, pper; static bool pasync; static char pops[32];
static struct gen { neco_gen *g; int co; bool closed, ended, sawclosed; int lastgot; int holders, nrecv; } G[4];
static int holds[MAXCO][4];
static struct nx { int co, gen; bool done; uint64_t inv; int64_t dl; } X[128]; static int nX;
static unsigned char pat(int v, int i) { return (unsigned char)(i == 0 ? v+1 : (v+1)*29 + i*11); }
static bool offering(int g) { for (int i = 0; i < nV; i++) if (V[i].gen == g && !V[i].done) return true; return false; }
static bool will_fail(int co, int64_t dl) { return cpend[co] > 0 || (dl != INT64_MAX && dl <= vt_now); }
static int waiting(int g, bool certain) { int n = 0; for (int i = 0; i < nX; i++) if (!X[i].done && X[i].gen == g && (!certain || !will_fail(X[i].co, X[i].dl))) n++; return n; }

static void do_next(struct cot *c, int g, int64_t dl) {
    int me = (int)(c-cot);
    if (nX >= 120) mc_abandon();
    struct nx *x = &X[nX++]; *x = (struct nx){ .co = me, .gen = g, .dl = dl };
    char b[400]; memset(b, 0xEE, sizeof b);
    bool saw = G[g].sawclosed, over = (G[g].closed || G[g].ended) && !offering(g);
    bool clean = !will_fail(me, dl);
    bool first = waiting(g, false) == 1;
    int off = -1; for (int i = 0; i < nV; i++) if (msz && V[i].gen == g && !V[i].done && !V[i].got && !will_fail(G[g].co, V[i].dl)) off = i;
    if (over || (off >= 0 && first && clean)) op_beginx(c, "next", K_RECV, dl); else op_begin(c, dl == INT64_MAX ? "next" : "next_dl", K_RECV, dl);
    x->inv = c->inv;
    int r = dl == INT64_MAX ? neco_gen_next(G[g].g, b) : neco_gen_next_dl(G[g].g, b, dl);
    op_end(c, r);
    x->done = true;
    for (int i = msz; i < msz+60; i++) if ((unsigned char)b[i] != 0xEE) mc_fail("C06", "next wrote past the data size");
    if (r == NECO_OK) {
        G[g].nrecv++;
        if (msz > 0) {
            int v = (unsigned char)b[0] - 1;
            for (int i = 1; i < msz; i++) if ((unsigned char)b[i] != pat(v, i)) v = -1;
            if (v < 0 || v >= nV) mc_fail("C06", "next returned garbage");
            mc_log("    (generator %d value %d)", g, v);
            if (V[v].gen != g) mc_fail("C06", "next on generator %d returned a value of generator %d", g, V[v].gen);
            if (V[v].got) mc_fail("C06", "value %d was received twice", v);
            if (V[v].done && V[v].res != NECO_OK) mc_fail("C06", "value %d was received although its yield reported %d", v, V[v].res);
            if (v < G[g].lastgot) mc_fail("C06", "value %d received after value %d", v, G[g].lastgot);
            for (int i = 0; i < v; i++) if (V[i].gen == g && !V[i].got && V[i].done && V[i].res == NECO_OK) {
                // an earlier value must be on its way to another consumer
                if (!waiting(g, false)) mc_fail("C06", "value %d was lost (value %d arrived)", i, v);
            }
            V[v].got = true; V[v].got_by = me; G[g].lastgot = v;
        } else G[g].lastgot++;
        if (saw) mc_fail("C06", "next succeeded after the generator had reported closed");
        mc_nontrivial();
    } else if (r == NECO_CLOSED) {
        if (!G[g].closed && !G[g].ended) mc_fail("C06", "next reports closed although the generator is running");
        if (off >= 0 && first && clean) mc_fail("C06", "next reports closed although a value is being offered");
        for (int i = 0; i < nV; i++) if (msz && V[i].gen == g && !V[i].got && V[i].done && V[i].res == NECO_OK && !waiting(g, false)) mc_fail("C06", "value %d was lost (closed)", i);
        G[g].sawclosed = true; mc_nontrivial();
    } else if (r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C06", "next returned %d", r);
    if (saw && r != NECO_CLOSED && clean) mc_fail("C06", "next on a finished generator returned %d instead of closed", r);
    chk(c, r, dl);
}
static void do_yieldv(struct cot *c, int g, int64_t dl) {
    int me = (int)(c-cot);
    if (nV >= MAXV) mc_abandon();
    int v = nV++; struct val *a = &V[v]; *a = (struct val){ .gen = g, .dl = dl };
    char b[400]; for (int i = 0; i < msz; i++) b[i] = (char)pat(v, i);
    bool closed = G[g].closed, clean = !will_fail(me, dl);
    int served = 0; for (int i = 0; i < nV; i++) if (V[i].gen == g && V[i].done && V[i].res == NECO_OK) served++;
    served -= G[g].nrecv; // consumers that have their value and did not run yet
    bool wt = waiting(g, true) > served && waiting(g, true) == waiting(g, false);
    if (closed || (wt && clean)) op_beginx(c, "gen_yield", K_SEND, dl); else op_begin(c, dl == INT64_MAX ? "gen_yield" : "gen_yield_dl", K_SEND, dl);
    a->inv = c->inv;
    int r = dl == INT64_MAX ? neco_gen_yield(b) : neco_gen_yield_dl(b, dl);
    op_end(c, r);
    mc_log("    (generator %d value %d)", g, v);
    a->done = true; a->res = r;
    if (closed && r != NECO_CLOSED && clean) mc_fail("C06", "yield on a closed generator returned %d", r);
    if (r == NECO_CLOSED && !G[g].closed) mc_fail("C06", "yield reports closed although nobody closed the generator");
    if (r != NECO_OK && a->got) mc_fail("C06", "yield returned %d although its value was received", r);
    if (r == NECO_OK && msz && !a->got && !waiting(g, false)) mc_fail("C06", "yield succeeded although nobody took the value");
    if (r != NECO_OK && r != NECO_CLOSED && r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C06", "yield returned %d", r);
    if (r == NECO_OK) mc_nontrivial();
    chk(c, r, dl);
}
static void prod_end(void *arg) {
    int g = (int)(intptr_t)arg; struct cot *c = &cot[G[g].co];
    if (c->busy && !cpend[c-cot]) mc_fail("C15,C06", "the producer was ended without a cancelation");
    for (int i = 0; i < nX; i++) if (X[i].co == G[g].co) X[i].done = true;
    // an offered value dies with its producer
    for (int i = 0; i < nV; i++) if (V[i].gen == g && !V[i].done) { V[i].done = true; V[i].res = V[i].got ? NECO_OK : NECO_CANCELED; }
    if (strchr(pops, 'x') && g+1 < ngen) neco_gen_release(G[g+1].g);
    c->busy = false; cpend[c-cot] = 0;
    G[g].ended = true; nrunning--;
    cot_exit(c);
}
static void producer(int argc, void **argv) {
    int g = (int)(intptr_t)argv[0];
    if (argc != 1+g) mc_fail("C06,C11", "generator coroutine got %d arguments", argc);
    struct cot *c = cot_new(); int me = (int)(c-cot);
    G[g].co = me; nrunning++;
    int ot; neco_setcanceltype(pasync ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, &ot);
    if (strchr(pops, 'x') && g+1 < ngen) neco_gen_retain(G[g+1].g);
    neco_cleanup_push(prod_end, (void*)(intptr_t)g);
    for (int n = 0; n < pper && left_total > 0 && !draining; n++) {
        char en[32]; int ne = 0;
        for (char *o = pops; *o; o++) if (*o != 'x' || g+1 < ngen) en[ne++] = *o;
        int k = mc_choose(ne+1);
        if (k == ne) break;
        left_total--;
        switch (en[k]) {
        case 'Y': do_yieldv(c, g, INT64_MAX); break;
        case 'D': do_yieldv(c, g, dl_in(1)); break;
        case 'y': op_callx(c, "yield", K_OTHER, neco_yield()); break;
        case 'p': do_sleep(c, dl_in(1)); break;
        case 'T': vt_now += unit*MS; break;
        case 'x': do_next(c, g+1, INT64_MAX); break;
        case 'e': neco_exit(); mc_fail("C11", "runs on after exit"); break;
        }
    }
    neco_cleanup_pop(1);
}
static int prog_expand(char o) { return strchr("NMcR", o) ? ngen : 1; }
static bool prog_enabled(struct cot *c, int i, char o, int v) { (void)i; (void)o; return G[v].g && holds[c-cot][v] > 0; }
static void prog_op(struct cot *c, int i, char o, int v) {
    (void)i; int r;
    switch (o) {
    case 'N': do_next(c, v, INT64_MAX); break;
    case 'M': do_next(c, v, dl_in(1)); break;
    case 'c': {
        bool was = G[v].closed || G[v].ended; G[v].closed = true;
        r = (int)op_callx(c, "gen_close", K_OTHER, neco_gen_close(G[v].g));
        if (r != (was ? NECO_CLOSED : NECO_OK)) mc_fail("C06", "close returned %d", r);
        break; }
    case 'R':
        if (neco_gen_retain(G[v].g) != NECO_OK) mc_fail("C06", "retain failed");
        op_callx(c, "yield", K_OTHER, neco_yield());
        if (neco_gen_release(G[v].g) != NECO_OK) mc_fail("C06", "release failed");
        break;
    }
}
static void prog_root(void) {
    int z = mc_cfg("z", -1);
    if (z >= 0) for (int k = 0; k < 3; k++) { // recycled objects
        neco_chan *ch; if (neco_chan_make(&ch, (size_t)z, 0)) mc_fail("C06", "make");
        if (k == 1) neco_chan_close(ch);
        neco_chan_release(ch);
    }
    for (int g = ngen-1; g >= 0; g--) {
        op_beginx(&cot[0], "gen_start", K_OTHER, INT64_MAX);
        holds[0][g] = 1;
        int r;
        if (g & 1) { void *av[2] = { (void*)(intptr_t)g, 0 }; r = neco_gen_startv(&G[g].g, (size_t)msz, producer, 1+g, av); }
        else r = neco_gen_start(&G[g].g, (size_t)msz, producer, 1+g, (void*)(intptr_t)g, (void*)0, (void*)0, (void*)0);
        op_end(&cot[0], r);
        if (r != NECO_OK || !G[g].g) mc_fail("C06", "gen_start returned %d", r);
        for (int i = 1; i < N; i++) if (neco_gen_retain(G[g].g) != NECO_OK) mc_fail("C06", "retain failed");
        for (int i = 1; i < N; i++) holds[ngen+i][g] = 1;
    }
}
static void prog_leave(struct cot *c, int i) {
    (void)i;
    for (int g = 0; g < ngen; g++) while (holds[c-cot][g]) {
        holds[c-cot][g]--;
        if (neco_gen_release(G[g].g) != NECO_OK) mc_fail("C06", "release failed");
    }
}
static void prog_judge(void) {
    for (int g = 0; g < ngen; g++) {
        int w = waiting(g, false);
        if (w && G[g].ended) mc_fail("C06", "%d consumers are blocked although the generator has ended", w);
        if (w && offering(g)) mc_fail("C06", "a consumer and the producer of generator %d are blocked on each other", g);
        if (w && G[g].closed) mc_fail("C06", "%d consumers are blocked although the generator is closed", w);
    }
}
static void prog_inspect(struct cot *c) { (void)c; }
static void prog_last(struct cot *c) {
    (void)c;
    for (int i = 0; i < nV; i++) if (msz && V[i].done && V[i].res == NECO_OK && !V[i].got) mc_fail("C06", "value %d was lost although its yield succeeded", i);
    for (int i = 0; i < nV; i++) if (V[i].got && V[i].res != NECO_OK) mc_fail("C06", "value %d received, yield returned %d", i, V[i].res);
}
static void prog_reset(void) { memset(G, 0, sizeof G); for (int i = 0; i < 4; i++) G[i].lastgot = -1; memset(holds, 0, sizeof holds); nV = nX = 0; }
void mc_setup(void) {
    ngen = mc_cfg("g", 1); msz = mc_cfg("msz", 8); pper = mc_cfg("pper", 4); pasync = mc_cfg("pasync", 0);
    snprintf(pops, sizeof pops, "%s", mc_cfgs("pops", "Y"));
    prog_setup(); mc_hooks.idle = idle;
}
