// Channel harness: C01 exactly-once/FIFO, C02 capacity/no stuck party, C03 close,
// C04 select, C05 broadcast, C24 statistics, C29 release, C14/C15 results.
//
// cfg: nch, cap0, cap1, msz, n (coroutines), per (ops per coroutine), budget,
//      ops=<letters>, unit (ms), chs=<digits: channels used by single-channel ops>,
//      va (variadic select), recycle (released channels before), bulk (many channels)
#include "mc.h"

#define MAXH 256
struct hist {
    int co, kind, ch; bool try_; bool sel, bcast;
    uint64_t inv, ret; int res; int msg; int64_t dl; bool pastdl;
    bool done, got; int got_by; int got_idx;
};
static struct hist H[MAXH]; static int nH;
static neco_chan *ch[12]; static int nch, cap[12], msz, va; static char chs[16]; static int nchs;
static struct { bool closed; uint64_t closed_inv; bool rclosed; int closer; } cs[12];
static int N, per, budget, unit;
static const char *ops; static int nops;
static int left_total;
static bool draining, drained;
static int cpend[MAXCO];     // cancels requested, unseen
static bool ended[MAXCO];
static int64_t ids[MAXCO];
static int nrunning;
static int finlist;
static int inspecting;

static unsigned char pat(int msg, int i) { return (unsigned char)(i == 0 ? msg+1 : (msg+1)*31 + i*7); }
static void fill(char *b, int msg) { for (int i = 0; i < msz; i++) b[i] = (char)pat(msg, i); }
static int unfill(const char *b) { // message number or -1
    if (msz == 0) return -2;
    int m = (unsigned char)b[0] - 1;
    for (int i = 1; i < msz; i++) if ((unsigned char)b[i] != pat(m, i)) return -1;
    return m;
}
static int64_t dl_in(int k) { return vt_now/ (unit*MS) * (unit*MS) + (int64_t)k*unit*MS; }

// ------------------------------------------------------------ oracle helpers
static int new_hist(struct cot *c, int kind, int chn) {
    if (nH >= MAXH) mc_abandon();
    struct hist *h = &H[nH];
    memset(h, 0, sizeof *h);
    h->co = (int)(c-cot); h->kind = kind; h->ch = chn; h->msg = -1; h->got_by = -1; h->got_idx = -1; h->dl = INT64_MAX;
    return nH++;
}
static int pend(int i) { return cpend[i]; }
static void check_code(struct cot *c, struct hist *h, int r) {
    int me = (int)(c-cot);
    if (r == NECO_CANCELED) {
        if (cpend[me] == 0) mc_fail("C15,C01", "coroutine %d: %s reports canceled but nobody canceled it", me, c->op);
        cpend[me] = 0;
    } else if (r == NECO_TIMEDOUT) {
        if (h->dl == INT64_MAX || vt_now <= h->dl) mc_fail("C14,C01", "coroutine %d: %s reports a timeout before its deadline", me, c->op);
    } else if (r >= 0 && c->pend0 && h->kind != K_BCAST)
        mc_fail("C15", "coroutine %d: %s began with a cancelation pending but does not report it", me, c->op);
}
static void got_message(struct hist *h, int hi, int m, int chn) {
    if (msz == 0) { h->msg = -2; return; }
    if (m < 0 || m >= nH || (H[m].kind != K_SEND && H[m].kind != K_BCAST)) {
        mc_fail("C01,C04,C05", "coroutine %d received garbage on channel %d (message %d)", h->co, chn, m); return; }
    if (H[m].ch != chn) mc_fail("C01,C04", "coroutine %d received on channel %d a message sent on channel %d", h->co, chn, H[m].ch);
    h->msg = m;
    if (H[m].kind == K_BCAST) {
        if (H[m].inv < h->inv) mc_fail("C05,C01", "a receive that started after a broadcast obtained its message");
        H[m].got_idx++; // counts from -1
        return;
    }
    if (H[m].got) mc_fail("C01,C04", "message %d received twice (coroutines %d and %d)", m, H[m].got_by, h->co);
    if (H[m].done && H[m].res != NECO_OK) mc_fail("C01", "message %d received although its send reported %s", m, neco_strerror(H[m].res));
    H[m].got = true; H[m].got_by = h->co; H[m].got_idx = hi;
}
static int inflight_receivers(int chn) {
    int n = 0;
    for (int i = 0; i < nH; i++) if (!H[i].done && (H[i].kind == K_RECV || H[i].kind == K_SEL) && (H[i].kind == K_SEL || H[i].ch == chn)) n++;
    return n;
}
// messages accepted and not yet seen by a receiver
static int outstanding(int chn) {
    int s = 0, r = 0;
    for (int i = 0; i < nH; i++) {
        if (H[i].ch != chn || !H[i].done || H[i].res != NECO_OK) continue;
        if (H[i].kind == K_SEND) s++;
        else if ((H[i].kind == K_RECV || H[i].kind == K_SEL) && !(H[i].msg >= 0 && H[H[i].msg].kind == K_BCAST)) r++;
    }
    return s - r;
}
static void check_capacity(int chn) {
    int o = outstanding(chn), f = inflight_receivers(chn);
    if (o > cap[chn] + f) mc_fail("C02", "channel %d of capacity %d holds %d accepted messages with %d receivers in progress", chn, cap[chn], o, f);
}
static bool pending_certain(int chn) { // is there certainly a message to take right now?
    // an accepted message that no in-flight receiver can have, or an untouched waiting sender
    int o = outstanding(chn), f = inflight_receivers(chn);
    if (o > f) return true;
    if (f == 0) for (int i = 0; i < nH; i++) if (H[i].kind == K_SEND && H[i].ch == chn && !H[i].done && !H[i].got && msz > 0) {
        struct cot *s = &cot[H[i].co];
        if (cpend[H[i].co] == 0 && (H[i].dl == INT64_MAX || H[i].dl > vt_now) && s->alive) return true;
    }
    return false;
}
static void final_checks(void);
// Who is certainly woken by a send, receive, broadcast or close on the channel:
// only judged when nothing but plain calls of one kind on that channel is in progress.
static void woken_by(struct woken *w, int chn, int kind, bool all) {
    w->n = 0;
    if (outstanding(chn) != (kind == K_SEND ? cap[chn] : 0) || cs[chn].closed) return;
    for (int i = 0; i < nH; i++) if (!H[i].done) {
        if (H[i].kind != kind || H[i].ch != chn || H[i].got || cpend[H[i].co] || (H[i].dl != INT64_MAX && H[i].dl <= vt_now) || !cot[H[i].co].busy) { w->n = 0; return; }
        if (all || !w->n) wk_add(w, H[i].co);
    }
}

static void do_send(struct cot *c, int chn, int64_t dl) {
    struct woken w; woken_by(&w, chn, K_RECV, false);
    int k = new_hist(c, K_SEND, chn); struct hist *h = &H[k];
    char b[1200]; fill(b, k); h->dl = dl; bool closed = cs[chn].closed;
    bool past = dl <= vt_now;
    op_begin(c, dl == INT64_MAX ? "send" : "send_dl", K_SEND, dl); h->inv = c->inv; c->a = chn;
    int r = dl == INT64_MAX ? neco_chan_send(ch[chn], b) : neco_chan_send_dl(ch[chn], b, dl);
    op_end(c, r);
    if (mc_verbose) mc_log("    (channel %d message %d)", chn, k);
    h->res = r; h->done = true; h->ret = mc_seq; (void)past;
    check_code(c, h, r);
    if (r == NECO_CLOSED) { if (!cs[chn].closed) mc_fail("C03,C01", "send reports closed on an open channel"); }
    else if (closed) mc_fail("C03", "send on a closed channel returned %d instead of closed", r);
    else if (r != NECO_OK && r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C01,C02", "send returned unexpected %d", r);
    if (r != NECO_OK && h->got) mc_fail("C01", "send reported %s although its message %d was received by coroutine %d", neco_strerror(r), k, h->got_by);
    if (r == NECO_OK) { check_capacity(chn); wk_check(&w, "send"); }
    mc_outcome((uint64_t)(r+100)*7+(uint64_t)h->co);
    mc_stats_upper();
}
static void closed_result(struct cot *c, struct hist *h, int chn, const char *b, bool waited) {
    (void)c;
    if (!cs[chn].closed) mc_fail("C03,C04", "a receive reports closed on an open channel");
    cs[chn].rclosed = true;
    if (waited && b) for (int i = 0; i < msz; i++) if (b[i]) { mc_fail("C03", "a receive that waited and found the channel closed left byte %d of the destination unzeroed", i); break; }
    (void)h;
}
static void do_recv(struct cot *c, int chn, int64_t dl, bool try_) {
    bool cert = pending_certain(chn);
    struct woken w; woken_by(&w, chn, K_SEND, false);
    int k = new_hist(c, K_RECV, chn); struct hist *h = &H[k];
    char b[1200]; memset(b, 0xEE, sizeof b); h->dl = dl;
    bool rclosed = cs[chn].rclosed;
    uint64_t s0 = mc_seq;
    if (try_) op_beginx(c, "tryrecv", K_RECV, dl); else op_begin(c, dl == INT64_MAX ? "recv" : "recv_dl", K_RECV, dl);
    h->inv = c->inv; c->a = chn;
    int r = try_ ? neco_chan_tryrecv(ch[chn], b) : dl == INT64_MAX ? neco_chan_recv(ch[chn], b) : neco_chan_recv_dl(ch[chn], b, dl);
    bool waited = mc_seq != s0+1;
    op_end(c, r);
    h->res = r; h->done = true; h->ret = mc_seq;
    for (int i = msz; i < msz+64; i++) if ((unsigned char)b[i] != 0xEE) mc_fail("C01", "receive wrote past the message size");
    check_code(c, h, r);
    if (r == NECO_OK) {
        int m = unfill(b);
        if (mc_verbose) mc_log("    (channel %d received message %d)", chn, m);
        got_message(h, k, m, chn);
        wk_check(&w, "receive");
        if (rclosed) mc_fail("C03", "a receive succeeded after an earlier receive had reported the channel closed");
        mc_nontrivial();
    } else if (r == NECO_CLOSED) { closed_result(c, h, chn, b, waited && !try_); if (cert) mc_fail("C03", "a receive reports closed although a message is still pending on channel %d", chn); }
    else if (r == NECO_EMPTY) {
        if (!try_) mc_fail("C01,C02", "recv returned empty");
        if (cert) mc_fail("C02", "try-receive reports empty although a message is available");
        if (rclosed) mc_fail("C03", "try-receive reports empty on a closed and drained channel");
    } else if (r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C01,C02", "recv returned unexpected %d", r);
    if (rclosed && r != NECO_CLOSED && r != NECO_OK) mc_fail("C03", "receive on a closed and drained channel returned %d instead of closed", r);
    check_capacity(chn);
    mc_outcome((uint64_t)(r+100)*13+(uint64_t)h->co*3+(uint64_t)(h->msg+3)*101);
    mc_stats_upper();
}
static void do_select(struct cot *c, int64_t dl, bool try_, int order) {
    bool cert = false, rcl = false, certc[12];
    for (int i = 0; i < nch; i++) { certc[i] = pending_certain(i); if (certc[i]) cert = true; if (cs[i].rclosed) rcl = true; }
    int k = new_hist(c, K_SEL, -1); struct hist *h = &H[k];
    neco_chan *cc[12] = {0}; int map[12];
    for (int i = 0; i < nch; i++) { map[i] = order ? nch-1-i : i; cc[i] = ch[map[i]]; }
    h->dl = dl;
    if (try_) op_beginx(c, "tryselect", K_SEL, dl); else op_begin(c, dl == INT64_MAX ? "select" : "select_dl", K_SEL, dl);
    h->inv = c->inv; c->a = -1;
#define CC cc[0],cc[1],cc[2],cc[3],cc[4],cc[5],cc[6],cc[7],cc[8],cc[9]
    int r;
    if (va) r = try_ ? neco_chan_tryselect(nch, CC) : dl == INT64_MAX ? neco_chan_select(nch, CC) : neco_chan_select_dl(dl, nch, CC);
    else r = try_ ? neco_chan_tryselectv(nch, cc) : dl == INT64_MAX ? neco_chan_selectv(nch, cc) : neco_chan_selectv_dl(nch, cc, dl);
    op_end(c, r);
    h->ret = mc_seq;
    check_code(c, h, r);
    if (r >= 0) {
        if (r >= nch) { mc_fail("C04", "select returned index %d of %d channels", r, nch); return; }
        int chn = map[r];
        h->ch = chn;
        char b[1200]; memset(b, 0xEE, sizeof b);
        int r2 = neco_chan_case(ch[chn], b);
        for (int i = msz; i < msz+64; i++) if ((unsigned char)b[i] != 0xEE) mc_fail("C04", "case wrote past the message size");
        h->res = r2; h->done = true;
        if (r2 == NECO_OK) {
            int m = unfill(b);
            if (mc_verbose) mc_log("    (select: channel %d message %d)", chn, m);
            got_message(h, k, m, chn);
            if (cs[chn].rclosed) {
                // legal only if this select started before the closed report
            }
            mc_nontrivial();
        } else if (r2 == NECO_CLOSED) {
            closed_result(c, h, chn, NULL, false);
            if (certc[chn]) mc_fail("C03,C04", "a select reports closed although a message is still pending on channel %d", chn);
        } else mc_fail("C04", "case after a successful select returned %d", r2);
        check_capacity(chn);
    } else {
        h->res = r; h->done = true; h->ch = -1;
        if (r == NECO_EMPTY) {
            if (!try_) mc_fail("C04", "select returned empty");
            if (cert) mc_fail("C04", "try-select reports empty although a message is available");
            if (rcl) mc_fail("C04,C03", "try-select reports empty although a channel is closed and drained");
        } else if (r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C04", "select returned unexpected %d", r);
    }
    mc_stats_upper();
    mc_outcome((uint64_t)(r+100)*17+(uint64_t)h->co*5+(uint64_t)(h->msg+3)*103);
}
static void do_close(struct cot *c, int chn) {
    bool was = cs[chn].closed;
    struct woken w; woken_by(&w, chn, K_RECV, true);
    if (!was) { cs[chn].closed = true; cs[chn].closed_inv = mc_seq; }
    op_beginx(c, "close", K_OTHER, INT64_MAX);
    int r = neco_chan_close(ch[chn]);
    op_end(c, r);
    if (!was && r != NECO_OK) mc_fail("C03", "first close returned %d", r);
    if (r == NECO_OK) wk_check(&w, "close");
    if (was && r != NECO_CLOSED) mc_fail("C03", "second close returned %d", r);
}
static void do_bcast(struct cot *c, int chn) {
    struct woken w; woken_by(&w, chn, K_RECV, true);
    int k = new_hist(c, K_BCAST, chn); struct hist *h = &H[k];
    char b[1200]; fill(b, k);
    bool closed = cs[chn].closed;
    op_beginx(c, "broadcast", K_BCAST, INT64_MAX); h->inv = c->inv;
    int r = neco_chan_broadcast(ch[chn], b);
    op_end(c, r);
    h->res = r; h->done = true; h->ret = mc_seq;
    if (closed && r != NECO_CLOSED) mc_fail("C05,C03", "broadcast on a closed channel returned %d", r);
    if (r >= 0) wk_check(&w, "broadcast");
    if (!closed && r < 0) mc_fail("C05", "broadcast returned error %d", r);
    mc_outcome((uint64_t)(r+100)*19);
}
static void do_cancel(struct cot *c, int j) {
    if (!cot[j].alive) return;
    cpend[j]++;
    op_beginx(c, "cancel", K_OTHER, INT64_MAX);
    int r = (int)neco_cancel(cot[j].id);
    op_end(c, r);
    if (mc_verbose) mc_log("    (cancel of co%d)", j);
    if (r == NECO_CANCELED) { // our own cancelation
        cpend[j]--; int m = (int)(c-cot);
        if (cpend[m] == 0) mc_fail("C15", "cancel reports canceled but nobody canceled the caller");
        cpend[m] = 0;
    }
}

// each op letter expands to variants; returns number
static int expand(char o) {
    switch (o) {
    case 's': case 'S': case 'r': case 'R': case 't': case 'c': case 'b': case 'P': return nchs;
    case 'k': return N-1;
    case 'x': return mc_cfg("xorder", 0) ? 2 : 1;
    default: return 1;
    }
}
static struct { char o; int v; } tab[64]; static int ntab;
static void body(int i) {
    struct cot *c = cot_new();
    ids[i] = c->id; nrunning++;
    int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    if (i == 0) {
        for (int j = 1; j < N; j++) {
            void bodyfn(int, void **);
            op_beginx(c, "start", K_OTHER, INT64_MAX);
            int r = neco_start(bodyfn, 1, (void*)(intptr_t)j);
            op_end(c, r);
        }
    }
    for (int n = 0; n < per && left_total > 0 && !draining; n++) {
        int k = mc_choose(ntab+1);
        if (k == ntab) break;
        left_total--;
        int v = tab[k].v; if (strchr("sSrRtcbP", tab[k].o)) v = chs[v]-'0';
        switch (tab[k].o) {
        case 's': do_send(c, v, INT64_MAX); break;
        case 'S': do_send(c, v, dl_in(1)); break;
        case 'P': do_send(c, v, vt_now-1); break;
        case 'r': do_recv(c, v, INT64_MAX, false); break;
        case 'R': do_recv(c, v, dl_in(1), false); break;
        case 't': do_recv(c, v, INT64_MAX, true); break;
        case 'c': do_close(c, v); break;
        case 'b': do_bcast(c, v); break;
        case 'x': do_select(c, INT64_MAX, false, v); break;
        case 'X': do_select(c, dl_in(1), false, 0); break;
        case 'z': do_select(c, INT64_MAX, true, 0); break;
        case 'y': op_callx(c, "yield", K_OTHER, neco_yield()); break;
        case 'T': vt_now += unit*MS; mc_log("co%d spends %d ms", i, unit); break;
        case 'p': { int64_t dl = dl_in(1);
            int r = (int)op_call(c, "sleep", K_SLEEP, dl, neco_sleep_dl(dl));
            if (r == NECO_CANCELED) { if (!cpend[i]) mc_fail("C15", "sleep canceled by nobody"); cpend[i] = 0; }
            else if (r == NECO_OK && vt_now < dl) mc_fail("C14", "sleep returned early");
            break; }
        case 'k': { int j = v < i ? v : v+1; if (j < N && j < ncot) do_cancel(c, j); break; }
        }
    }
    nrunning--;
    if (nrunning == 0 && !draining) { // last one: look at what is left
        draining = true; inspecting = 2;
        for (int q = 0; q < nch; q++) for (int t = 0; t < 20; t++) {
            int before = nH; do_recv(c, q, INT64_MAX, true);
            if (H[before].res != NECO_OK && H[before].res != NECO_CANCELED) break;
        }
        mc_stats_exact(0);
        drained = true;
        final_checks();
        for (int q = 0; q < nch; q++) neco_chan_release(ch[q]);
    }
    cot_exit(c);
}
void bodyfn(int argc, void **argv) { (void)argc; body((int)(intptr_t)argv[0]); }
static void recycle(void) { // leave used channels of other shapes behind
    char b[1200]; memset(b, 0x77, sizeof b);
    for (int v = 0; v < 4; v++) {
        neco_chan *x; if (neco_chan_make(&x, (size_t)(v & 1 ? msz : 0), (size_t)(v < 2 ? 3 : 1))) mc_fail("C01", "chan_make fails");
        neco_chan_send(x, b); neco_chan_retain(x);
        if (v & 2) neco_chan_close(x);
        if (neco_chan_selectv(1, &x) != 0) mc_fail("C04", "select fails");
        if (neco_chan_case(x, b) != NECO_OK) mc_fail("C04", "case fails");
        if (v < 2) { neco_chan_send(x, b); neco_chan_send(x, b); }
        neco_chan_release(x);
        int r = neco_chan_tryrecv(x, b); // still usable by the other holder
        if (r != (v < 2 ? NECO_OK : NECO_CLOSED)) mc_fail("C01,C03,C29", "a retained channel returned %d", r);
        neco_chan_release(x);
    }
}
static void bulk(int n) { // many channels alive, released and made again
    static neco_chan *x[400]; char b[1200]; memset(b, 0x77, sizeof b);
    for (int round = 0; round < 3; round++) {
        for (int i = 0; i < n; i++) {
            int r = neco_chan_make(&x[i], round == 1 ? (size_t)(i%3) : 0, (size_t)(i%4));
            if (r) { mc_fail("C01", "chan_make returned %d", r); return; }
        }
        for (int i = 0; i < n; i++) {
            for (int k = 0; k < i%4; k++) { b[0] = b[1] = (char)(i+k); if (neco_chan_send(x[i], b)) mc_fail("C01", "send fails"); }
            if (i%5 == 0) neco_chan_close(x[i]);
        }
        for (int i = 0; i < n; i++) {
            for (int k = 0; k < i%4; k++) {
                b[0] = b[1] = 1;
                int r = neco_chan_tryrecv(x[i], b); int sz = round == 1 ? i%3 : 0;
                if (r || (sz > 0 && b[0] != (char)(i+k)) || (sz > 1 && b[1] != (char)(i+k)) || (sz == 0 && b[0] != 1))
                    mc_fail("C01", "one of many channels lost or mixed up a message (%d)", r);
            }
            int r = neco_chan_tryrecv(x[i], b);
            if (r != (i%5 == 0 ? NECO_CLOSED : NECO_EMPTY)) mc_fail("C01,C03", "one of many channels reports %d at its end", r);
            if (round == 2 && i%2) continue;
            neco_chan_release(x[i]);
        }
        if (round == 2) for (int i = 1; i < n; i += 2) neco_chan_release(x[i]);
    }
}
static void huge(void) { // buffers beyond 2 GB
    static const struct { size_t sz; int cap; } V[] = { { 64u<<20, 34 }, { (1u<<30)+16, 2 } };
    int v = mc_choose(2); size_t sz = V[v].sz; int cp = V[v].cap;
    char *b = __real_mmap(NULL, sz, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0), *d = __real_mmap(NULL, sz, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    madvise(b, sz, MADV_HUGEPAGE); madvise(d, sz, MADV_HUGEPAGE);
    neco_chan *x; int r = neco_chan_make(&x, sz, (size_t)cp);
    if (r) mc_fail("C01", "chan_make of %zu * %d bytes returned %d", sz, cp, r);
    for (int i = 0; i < cp; i++) { mc_progress(); b[0] = (char)(i+1); b[sz-1] = (char)(i+101); memcpy(b+sz/2, &i, 4); r = neco_chan_send(x, b); if (r) mc_fail("C01,C02", "send number %d of %d returned %d", i, cp, r); }
    for (int i = 0; i < cp; i++) {
        mc_progress();
        if (i == cp-1) { r = neco_chan_select(1, x); if (r == 0) r = neco_chan_case(x, d); } else r = neco_chan_recv(x, d);
        int k; memcpy(&k, d+sz/2, 4);
        if (r || d[0] != (char)(i+1) || d[sz-1] != (char)(i+101) || k != i) mc_fail("C01", "message %d of %zu bytes arrives damaged (%d)", i, sz, r);
    }
    neco_chan_release(x); __real_munmap(b, sz); __real_munmap(d, sz); mc_nontrivial(); mc_outcome((uint64_t)v);
}
static void rootfn(int argc, void **argv) {
    (void)argc; (void)argv;
    if (mc_cfg("huge", 0)) { huge(); return; }
    if (mc_cfg("recycle", 0)) recycle();
    if (mc_cfg("bulk", 0)) bulk(mc_cfg("bulk", 0));
    for (int q = 0; q < nch; q++) {
        int r = neco_chan_make(&ch[q], (size_t)msz, (size_t)cap[q]);
        if (r != NECO_OK) mc_fail("C01", "chan_make returned %d", r);
    }
    body(0);
}

// order: k-th accepted send pairs with k-th successful receive, both by start
static void final_checks(void) {
    for (int q = 0; q < nch; q++) {
        int s[MAXH], r[MAXH], ns = 0, nr = 0;
        for (int i = 0; i < nH; i++) if (H[i].ch == q) {
            if (H[i].kind == K_SEND && ((H[i].done && H[i].res == NECO_OK) || H[i].got)) s[ns++] = i;
            else if ((H[i].kind == K_RECV || H[i].kind == K_SEL) && H[i].done && H[i].res == NECO_OK &&
                !(H[i].msg >= 0 && H[H[i].msg].kind == K_BCAST)) r[nr++] = i;
        }
        // history index order is invocation order
        if (nr > ns) mc_fail("C01,C04", "channel %d: %d messages received but only %d sent", q, nr, ns);
        if (msz) for (int i = 0; i < nr; i++) if (H[r[i]].msg != s[i])
            mc_fail("C01,C02,C04", "channel %d: receive #%d (coroutine %d) got message %d, expected %d in first-come first-served order", q, i, H[r[i]].co, H[r[i]].msg, s[i]);
        if (drained && ns != nr) {
            // every accepted message must have been received by now
            mc_fail("C01,C04,C03", "channel %d: %d messages accepted but only %d received after draining", q, ns, nr);
        }
        for (int i = 0; i < nH; i++) if (H[i].kind == K_BCAST && H[i].ch == q && H[i].done && H[i].res >= 0 && msz) {
            int n = 0, must = 0;
            for (int j = 0; j < nH; j++) if (H[j].kind == K_RECV || H[j].kind == K_SEL) {
                if (H[j].done && H[j].msg == i) n++;
                if (H[j].inv < H[i].inv && (!H[j].done || H[j].ret > H[i].inv) && (H[j].kind == K_SEL || H[j].ch == q) && H[j].msg != i) {
                    // waiting at the time of the broadcast and did not get it: excuse?
                    bool exc = false;
                    if (!H[j].done) must++, exc = true;
                    else if (H[j].res == NECO_OK && H[j].msg >= 0 && H[H[j].msg].inv < H[i].inv) exc = true;
                    else if (H[j].res == NECO_CANCELED || H[j].res == NECO_TIMEDOUT) exc = true; // gave up in the same round
                    else if (H[j].res == NECO_CLOSED) exc = true;
                    if (!exc) mc_fail("C05", "receive of coroutine %d was waiting when broadcast %d was made but did not get it", H[j].co, i);
                }
            }
            if (n != H[i].res) mc_fail("C05", "broadcast %d returned %d but %d receivers got its message", i, H[i].res, n);
            if (must) mc_fail("C05,C02", "a receiver waiting when broadcast %d was made is still blocked", i);
        }
    }
}

static void inspector(int argc, void **argv) {
    (void)argc; (void)argv;
    struct cot *c = cot_new();
    int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    mc_stats_exact(0);
    // drain what is there
    for (int q = 0; q < nch; q++) for (int t = 0; t < 20; t++) {
        int before = nH; do_recv(c, q, INT64_MAX, true);
        if (H[before].res != NECO_OK && H[before].res != NECO_CANCELED) break;
    }
    drained = true;
    final_checks();
    // wake the rest so that the runtime can end
    for (int i = 0; i < ncot-1; i++) if (cot[i].alive && cot[i].busy) {
        cpend[i]++;
        op_beginx(c, "cancel", K_OTHER, INT64_MAX);
        neco_cancel(cot[i].id);
        op_end(c, 0);
    }
    for (int t = 0; t < 3; t++) op_callx(c, "yield", K_OTHER, neco_yield());
    for (int i = 0; i < ncot-1; i++) if (cot[i].alive) mc_blame = cot[i].kind, mc_fail("C15", "coroutine %d blocked in %s ignores a cancelation", i, cot[i].op);
    drained = true; final_checks();
    for (int q = 0; q < nch; q++) neco_chan_release(ch[q]);
    cot_exit(c);
}
static void idle(void) {            // nobody can run: judge the blocked set
    if (inspecting) return;
    for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].busy && cpend[i] > 0)
        mc_blame = cot[i].kind, mc_fail("C15", "coroutine %d was canceled but stays blocked in %s", i, cot[i].op);
    // judge the blocked set
    for (int q = 0; q < nch; q++) {
        int bs = 0, br = 0;
        for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].busy) {
            if (cot[i].kind == K_SEND && cot[i].a == q) bs++;
            if ((cot[i].kind == K_RECV && cot[i].a == q) || cot[i].kind == K_SEL) br++;
        }
        int o = outstanding(q);
        if (bs && br) mc_fail("C02,C04", "channel %d: %d senders and %d receivers blocked on each other", q, bs, br);
        if (bs && o < cap[q]) mc_fail("C02", "channel %d: sender blocked although %d of %d buffer slots are free", q, cap[q]-o, cap[q]);
        if (br && o > 0) mc_fail("C02,C01,C04", "channel %d: receiver blocked although %d accepted messages are undelivered", q, o);
        if (bs && cs[q].rclosed) mc_fail("C03", "channel %d: sender blocked forever on a channel whose receivers are told closed", q);
        if (br && cs[q].closed) mc_fail("C03", "channel %d: receiver blocked forever on a closed channel", q);
        if (o > cap[q]) mc_fail("C02", "channel %d: %d messages accepted beyond the capacity %d", q, o, cap[q]);
    }
}
static void quiesce(void) {
    if (inspecting) mc_fail("*", "blocked for good while finishing");
    idle();
    final_checks();
    mc_nontrivial();
    for (int i = 0; i < ncot; i++) mc_outcome(cot[i].alive ? (uint64_t)cot[i].kind : 0);
    inspecting = 1; draining = true;
    if (neco_start(inspector, 0) != NECO_OK) mc_abandon();
}
static void run(void) {
    for (int k = mc_cfg("runs", 1); k; k--) {
        int r = neco_start(rootfn, 0);
        if (r != NECO_OK) mc_fail("*", "neco_start returned %d", r);
        for (int i = 0; i < ncot; i++) if (cot[i].alive) mc_fail("C11", "the outermost start returned although coroutine %d has not finished", i);
        if (k > 1) mc_next_runtime();
    }
}
static void reset(void) {
    nH = 0; memset(cs, 0, sizeof cs); memset(cpend, 0, sizeof cpend); mc_pend = pend;
    left_total = budget; draining = drained = false; nrunning = 0; inspecting = 0;
}
void mc_setup(void) {
    nch = mc_cfg("nch", 1); va = mc_cfg("va", 0);
    for (int i = 0; i < 12; i++) { char k[8]; snprintf(k, 8, "cap%d", i); cap[i] = mc_cfg(k, mc_cfg("cap", 0)); }
    snprintf(chs, sizeof chs, "%.*s", nch, "0123456789"); { const char *q = mc_cfgs("chs", NULL); if (q) snprintf(chs, sizeof chs, "%s", q); }
    nchs = (int)strlen(chs);
    msz = mc_cfg("msz", 4); N = mc_cfg("n", 3); per = mc_cfg("per", 3); budget = mc_cfg("budget", 6);
    unit = mc_cfg("unit", 10); static char opsbuf[64]; snprintf(opsbuf, 64, "%s", mc_cfgs("ops", "srty")); ops = opsbuf;
    ntab = 0;
    for (const char *o = ops; *o; o++) for (int v = 0; v < expand(*o); v++) { tab[ntab].o = *o; tab[ntab].v = v; ntab++; }
    mc_hooks.run = run; mc_hooks.quiesce = quiesce; mc_hooks.idle = idle; mc_hooks.reset = reset;
}
