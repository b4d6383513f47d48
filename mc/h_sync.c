// Mutex (C07, C08), condition variable (C09) and wait group (C10) harness.
// ops: l lock  L lock_dl  t trylock  r rdlock  R rdlock_dl  q tryrdlock  u unlock
//      w cond_wait  W cond_wait_dl  s signal  b broadcast
//      a wg_add(1)  A wg_add(2)  n wg_add(-1)  d wg_done  g wg_wait  G wg_wait_dl
//      y yield  T tick  p sleep  k cancel
#include "prog.h"
#define MAXH 128
static neco_mutex mx[2]; static neco_cond cv; static neco_waitgroup wg; static int nmx;
static int wr[2], rdc[2];              // current holders by our account
static int held[MAXCO][2];             // 1 write, 2 read (counts of read holds in high bits not needed)
// lock requests in progress
static struct req { int co, m; bool write, done, expired; uint64_t inv; int64_t dl; int res; } Q[MAXH]; static int nQ;
// cond
static struct wt { int co; uint64_t inv, ret; int64_t dl; int res; bool done, given; } W[MAXH]; static int nW;
static struct sg { bool bc; uint64_t seq; uint64_t certain, inflight; } G[MAXH]; static int nG;
// wait group
static int wgc; static struct wgw { int co; bool done, due, certain; uint64_t inv; int64_t dl; int res; } U[MAXH]; static int nU;

static bool will_fail(int co, int64_t dl) { return cpend[co] > 0 || cextra[co] > 0 || (dl != INT64_MAX && dl <= vt_now); }
static int inflight(int m, int onlywriters) {
    int n = 0;
    for (int i = 0; i < nQ; i++) if (!Q[i].done && Q[i].m == m && (!onlywriters || Q[i].write)) n++;
    return n;
}
static int cond_inflight(void) { int n = 0; for (int i = 0; i < nW; i++) if (!W[i].done) n++; return n; }

static void take(int i, int m, bool write) {
    if (write && (wr[m] || rdc[m])) mc_fail("C07", "coroutine %d obtained the mutex for writing while %d writers and %d readers hold it", i, wr[m], rdc[m]);
    if (!write && wr[m]) mc_fail("C07", "coroutine %d obtained the mutex for reading while a writer holds it", i);
    if (write) wr[m]++; else rdc[m]++;
    held[i][m] += write ? 1 : 16;
    if (!inspecting) mc_nontrivial();
}
static void lock(struct cot *c, int i, int m, bool write, int64_t dl) {
    if (nQ >= MAXH) mc_abandon();
    struct req *q = &Q[nQ++];
    *q = (struct req){ .co = i, .m = m, .write = write, .dl = dl };
    bool free_ = !wr[m] && (write ? !rdc[m] && !inflight(m, 0) - 0 : true);
    (void)free_;
    // can it be granted at once?
    bool must = !wr[m] && cond_inflight() == 0 && inflight(m, 0) == 1 && (write ? rdc[m] == 0 : true);
    if (must && !cpend[i] && dl > vt_now) op_beginx(c, write ? "lock" : "rdlock", K_LOCK, dl);
    else op_begin(c, write ? (dl == INT64_MAX ? "lock" : "lock_dl") : (dl == INT64_MAX ? "rdlock" : "rdlock_dl"), K_LOCK, dl);
    q->inv = c->inv; uint64_t s0 = mc_seq;
    int r = write ? (dl == INT64_MAX ? neco_mutex_lock(&mx[m]) : neco_mutex_lock_dl(&mx[m], dl))
                  : (dl == INT64_MAX ? neco_mutex_rdlock(&mx[m]) : neco_mutex_rdlock_dl(&mx[m], dl));
    (void)s0;
    op_end(c, r);
    q->done = true; q->res = r;
    chk(c, r, dl);
    if (r == NECO_OK) {
        take(i, m, write);
        for (int k = 0; k < nQ; k++) {
            struct req *o = &Q[k];
            if (o == q || o->done || o->m != m || o->inv > q->inv || will_fail(o->co, o->dl)) continue;
            if (!write && !o->write) continue;
            mc_fail("C08", "coroutine %d obtained the mutex before coroutine %d, which has been waiting longer", i, o->co);
        }
    } else if (r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C07,C08", "lock returned %d", r);
}
static void trylock(struct cot *c, int i, int m, bool write) {
    int fl = inflight(m, 0) + cond_inflight();
    bool waitingwriter = false;
    for (int k = 0; k < nQ; k++) if (!Q[k].done && Q[k].m == m && Q[k].write && !will_fail(Q[k].co, Q[k].dl)) waitingwriter = true;
    op_beginx(c, write ? "trylock" : "tryrdlock", K_OTHER, INT64_MAX);
    int r = write ? neco_mutex_trylock(&mx[m]) : neco_mutex_tryrdlock(&mx[m]);
    op_end(c, r);
    chk(c, r, INT64_MAX);
    if (r == NECO_OK) {
        take(i, m, write);
        if (!write && waitingwriter) mc_fail("C08", "a try-read-lock was admitted past a waiting writer");
    } else if (r == NECO_BUSY) {
        if (fl == 0 && !wr[m] && (write ? rdc[m] == 0 : true)) mc_fail("C07", "%s reports busy although the lock can be granted", c->op);
    } else mc_fail("C07", "%s returned %d", c->op, r);
}
static void unlock(struct cot *c, int i, int m) {
    bool aswriter = held[i][m] & 15;
    if (held[i][m] & 15) { held[i][m]--; wr[m]--; } else { held[i][m] -= 16; rdc[m]--; }
    struct woken w = {0};
    if (aswriter && !wr[m] && !rdc[m] && !cond_inflight()) for (int k = 0; k < nQ; k++) if (!Q[k].done && Q[k].m == m) {
        if (will_fail(Q[k].co, Q[k].dl)) { w.n = 0; break; }
        if (w.n && Q[k].write) break;
        wk_add(&w, Q[k].co);
        if (Q[k].write) break;
    }
    op_beginx(c, "unlock", K_OTHER, INT64_MAX);
    int r = neco_mutex_unlock(&mx[m]);
    op_end(c, r);
    if (r != NECO_OK) mc_fail("C07,C08", "unlock returned %d", r);
    wk_check(&w, "unlock");
    mc_stats_upper();
}
static void cwait(struct cot *c, int i, int64_t dl) {
    if (nW >= MAXH) mc_abandon();
    bool asreader = !(held[i][0] & 15);
    if (asreader) { held[i][0] -= 16; rdc[0]--; } else { held[i][0]--; wr[0]--; }
    struct wt *w = &W[nW++];
    *w = (struct wt){ .co = i, .dl = dl };
    bool hadcancel = cpend[i] > 0;
    op_begin(c, dl == INT64_MAX ? "cond_wait" : "cond_wait_dl", K_COND, dl); w->inv = c->inv;
    // past its deadline a wait may still have to wait for the mutex
    int r = dl == INT64_MAX ? neco_cond_wait(&cv, &mx[0]) : neco_cond_wait_dl(&cv, &mx[0], dl);
    op_end(c, r);
    w->done = true; w->res = r; w->ret = mc_seq;
    chk(c, r, dl);
    if (r != NECO_OK && r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C09", "cond_wait returned %d", r);
    if (r == NECO_CANCELED && hadcancel && asreader) { rdc[0]++; held[i][0] += 16; }
    else {
        if (wr[0] || rdc[0]) mc_fail("C09,C07", "cond_wait returned %d while another coroutine holds the mutex", r);
        wr[0]++; held[i][0]++;
    }
    int t = neco_mutex_trylock(&mx[0]);
    if (t != NECO_BUSY) mc_fail("C09", "cond_wait returned %d without holding the mutex", r);
    mc_nontrivial();
}
static void csignal(struct cot *c, bool bc) {
    if (nG >= MAXH) mc_abandon();
    struct sg *g = &G[nG++];
    memset(g, 0, sizeof *g); g->bc = bc;
    for (int k = 0; k < nW && k < 64; k++) if (!W[k].done) {
        g->inflight |= 1ull<<k;
        if (!will_fail(W[k].co, W[k].dl)) g->certain |= 1ull<<k;
    }
    op_beginx(c, bc ? "broadcast" : "signal", K_OTHER, INT64_MAX); g->seq = c->inv;
    int r = bc ? neco_cond_broadcast(&cv) : neco_cond_signal(&cv);
    op_end(c, r);
    if (r != NECO_OK) mc_fail("C09", "signal returned %d", r);
    mc_stats_upper();
}
static void cond_final(void) {
    for (int k = 0; k < nW; k++) W[k].given = false;
    for (int k = 0; k < nG; k++) for (int j = 0; j < nW && j < 64; j++) {
        if (!(G[k].inflight>>j & 1) || W[j].given || !W[j].done) continue;
        if (W[j].res == NECO_OK) { W[j].given = true; if (!G[k].bc) break; }
        else if (G[k].certain>>j & 1) {
            mc_fail("C09", "%s #%d did not reach coroutine %d, the longest waiting one (its wait returned %d)", G[k].bc ? "broadcast" : "signal", k, W[j].co, W[j].res);
            if (!G[k].bc) break;
        }
    }
    for (int j = 0; j < nW; j++) if (W[j].done && W[j].res == NECO_OK && !W[j].given)
        mc_fail("C09", "the wait of coroutine %d returned success without a signal", W[j].co);
}
static void wg_zero(void) { for (int k = 0; k < nU; k++) if (!U[k].done && !U[k].due) { U[k].due = true; U[k].certain = !will_fail(U[k].co, U[k].dl); } }
static void wgadd(struct cot *c, int d, bool done) {
    int exp = wgc + d < 0 ? NECO_NEGWAITGRP : NECO_OK;
    struct woken w = {0};
    if (wgc && wgc + d == 0) for (int k = 0; k < nU; k++) if (!U[k].done && !U[k].due && !will_fail(U[k].co, U[k].dl)) wk_add(&w, U[k].co);
    if (exp == NECO_OK) { wgc += d; if (wgc == 0) wg_zero(); }
    op_beginx(c, done ? "wg_done" : d < 0 ? "wg_add(-)" : "wg_add", K_OTHER, INT64_MAX);
    int r = done ? neco_waitgroup_done(&wg) : neco_waitgroup_add(&wg, d);
    op_end(c, r);
    wk_check(&w, c->op);
    if (r != exp) mc_fail("C10", "%s returned %d instead of %d with the counter at %d", c->op, r, exp, wgc);
    mc_stats_upper();
}
static void wgwait(struct cot *c, int i, int64_t dl) {
    if (nU >= MAXH) mc_abandon();
    struct wgw *u = &U[nU++];
    *u = (struct wgw){ .co = i, .dl = dl };
    bool z = wgc == 0;
    if (z) { u->due = true; u->certain = !will_fail(i, dl); op_beginx(c, "wg_wait(0)", K_OTHER, INT64_MAX); }
    else op_begin(c, dl == INT64_MAX ? "wg_wait" : "wg_wait_dl", K_WG, dl);
    u->inv = c->inv;
    int r = dl == INT64_MAX ? neco_waitgroup_wait(&wg) : neco_waitgroup_wait_dl(&wg, dl);
    op_end(c, r);
    u->done = true; u->res = r;
    chk(c, r, dl);
    if (r == NECO_OK && !u->due) mc_fail("C10", "wait returned success although the counter never was zero (it is %d)", wgc);
    if (r != NECO_OK && u->certain) mc_fail("C10", "wait returned %d although the counter had become zero", r);
    if (r != NECO_OK && r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C10", "wait returned %d", r);
    if (r == NECO_OK && !z) mc_nontrivial();
}

static int prog_expand(char o) {
    return strchr("lLtrRqu", o) ? nmx : 1;
}
static bool prog_enabled(struct cot *c, int i, char o, int v) {
    (void)c;
    switch (o) {
    case 'u': return held[i][v] != 0;
    case 'w': case 'W': return held[i][0] != 0;
    default: return true;
    }
}
static void prog_op(struct cot *c, int i, char o, int v) {
    switch (o) {
    case 'l': lock(c, i, v, true, INT64_MAX); break;
    case 'L': lock(c, i, v, true, dl_in(1)); break;
    case 'r': lock(c, i, v, false, INT64_MAX); break;
    case 'R': lock(c, i, v, false, dl_in(1)); break;
    case 't': trylock(c, i, v, true); break;
    case 'q': trylock(c, i, v, false); break;
    case 'u': unlock(c, i, v); break;
    case 'w': cwait(c, i, INT64_MAX); break;
    case 'W': cwait(c, i, dl_in(1)); break;
    case 's': csignal(c, false); break;
    case 'b': csignal(c, true); break;
    case 'a': wgadd(c, 1, false); break;
    case 'A': wgadd(c, 2, false); break;
    case 'n': wgadd(c, -1, false); break;
    case 'd': wgadd(c, -1, true); break;
    case 'g': wgwait(c, i, INT64_MAX); break;
    case 'G': wgwait(c, i, dl_in(1)); break;
    }
}
static void prog_root(void) {
    if (mc_cfg("init", 0)) {
        // whatever the memory held before
        memset(mx, 0xA5, sizeof mx); memset(&cv, 0xA5, sizeof cv); memset(&wg, 0xA5, sizeof wg);
        for (int m = 0; m < nmx; m++) if (neco_mutex_init(&mx[m])) mc_fail("C07", "mutex_init fails");
        if (neco_cond_init(&cv) || neco_waitgroup_init(&wg)) mc_fail("C09,C10", "init fails");
    }
}
static void prog_leave(struct cot *c, int i) {
    for (int m = 0; m < nmx; m++) while (held[i][m]) unlock(c, i, m);
}
static void prog_judge(void) {
    for (int m = 0; m < nmx; m++) {
        int bw = 0, br = 0;
        for (int k = 0; k < nQ; k++) if (!Q[k].done && Q[k].m == m) { if (Q[k].write) bw++; else br++; }
        if (!wr[m] && !rdc[m] && bw+br) mc_fail("C08", "mutex %d: nobody holds it but %d writers and %d readers are blocked", m, bw, br);
        if (!wr[m] && br && !bw && !cond_inflight()) mc_fail("C08", "mutex %d: %d readers are blocked although only readers hold it", m, br);
    }
    // condition waiters that must have been woken
    if (!wr[0] && !rdc[0]) {
        uint64_t given = 0;
        for (int k = 0; k < nG; k++) for (int j = 0; j < nW && j < 64; j++) {
            if (!(G[k].inflight>>j & 1) || (given>>j & 1)) continue;
            bool blocked = !W[j].done;
            if (blocked || W[j].res == NECO_OK) {
                given |= 1ull<<j;
                if (blocked) mc_fail("C09", "coroutine %d is still waiting although %s #%d was for it", W[j].co, G[k].bc ? "broadcast" : "signal", k);
                if (!G[k].bc) break;
            } else if (G[k].certain>>j & 1) { if (!G[k].bc) break; }
        }
    }
    for (int k = 0; k < nU; k++) if (!U[k].done && U[k].due) mc_fail("C10", "coroutine %d is still waiting although the counter reached zero", U[k].co);
}
static void prog_inspect(struct cot *c) { (void)c; }
static void prog_last(struct cot *c) {
    cond_final();
    int i = (int)(c-cot);
    for (int m = 0; m < nmx; m++) {
        if (wr[m] || rdc[m]) continue;
        trylock(c, i, m, true);
        if (held[i][m]) unlock(c, i, m);
        else mc_fail("C07,C08,C09", "mutex %d is still locked although nobody holds it", m);
    }
    // the group still works
    while (wgc > 0) wgadd(c, -1, true);
    wgadd(c, -1, true);
    wgwait(c, i, INT64_MAX);
}
static void prog_reset(void) {
    memset(mx, 0, sizeof mx); memset(&cv, 0, sizeof cv); memset(&wg, 0, sizeof wg);
    memset(wr, 0, sizeof wr); memset(rdc, 0, sizeof rdc); memset(held, 0, sizeof held);
    nQ = nW = nG = nU = 0; wgc = 0;
}
// a condition wait has to get the mutex back before it may return
static bool dlexempt(int i) {
    if (cot[i].kind != K_COND || !(wr[0] || rdc[0])) return false;
    if (cpend[i] || cot[i].dl <= vt_now) return true;
    for (int j = 0; j < nW && j < 64; j++) if (!W[j].done && W[j].co == i)
        for (int k = 0; k < nG; k++) if (G[k].inflight>>j & 1) return true;
    return false;
}
void mc_setup(void) { mc_hooks.dlexempt = dlexempt; nmx = mc_cfg("nmx", 1); prog_setup(); mc_hooks.idle = idle; }
