// Random number harness (C26).
// ops: f fill from the seeded generator  F with a deadline  c fill from the secure generator  s set a seed, keeping the previous one
//      o set the seed kept last  w unrelated work (start, channel, lock, sleep)   y T p k
// cfg: sz = letters of request sizes (table below);  oracle: the same requests made again, alone, at the end
// WRAP: dlopen dlsym dlclose
#include "prog.h"
static const size_t SZ[] = { 0, 1, 3, 4, 5, 7, 8, 255, 256, 257, 512, 513, 600, 1000 };  // a..n
static int nsz; static size_t sz[16];
static char *sec; static size_t secn, secdone;     // the secure request in progress (the fake writes one at a time, per call range)
static int nopen;
static struct sreq { char *p; size_t n, got; bool live; } SR[16]; static int nSR;
static void fake_arc4(void *p, size_t n) {
    memset(p, 0xA5, n);
    for (int i = 0; i < nSR; i++) if (SR[i].live && (char*)p >= SR[i].p && (char*)p < SR[i].p+SR[i].n+1) SR[i].got += n;
}
void *__wrap_dlopen(const char *n, int f) { (void)n; (void)f; nopen++; return (void*)&nopen; }
void *__wrap_dlsym(void *h, const char *n) { (void)h; (void)n; return (void*)fake_arc4; }
int __wrap_dlclose(void *h) { if (h != (void*)&nopen || nopen <= 0) mc_fail("C29", "a library handle is closed twice"); nopen--; return 0; }
#define MAXR 24
struct state { bool known; int64_t seed; int n; size_t req[MAXR]; };
static struct state now, kept[MAXR]; static int64_t keptseed[MAXR]; static int nkept;
static struct rec { struct state before; size_t n; unsigned char *b; } R[MAXR]; static int nR;
static int prg; static bool mixed;                 // seeded requests in progress; some overlapped
static const int64_t seeds[] = { 1, -7 };
static void unseed(void) { now.known = false; }
static void do_rand(struct cot *c, size_t n, bool secure, int64_t dl) {
    unsigned char *b = malloc(n+64); memset(b, 0xEE, n+64);
    struct state before = now; int si = -1;
    if (secure) { if (nSR >= 16) mc_abandon(); si = nSR++; SR[si] = (struct sreq){ (char*)b+32, n, 0, true }; }
    else { if (prg) mixed = true; prg++; }
    op_begin(c, secure ? "secure rand" : "rand", K_OTHER, dl);
    int r = dl == INT64_MAX ? neco_rand(b+32, n, secure ? NECO_CSPRNG : NECO_PRNG) : neco_rand_dl(b+32, n, secure ? NECO_CSPRNG : NECO_PRNG, dl);
    op_end(c, r); chk(c, r, dl);
    if (r != NECO_OK && r != NECO_CANCELED && r != NECO_TIMEDOUT) mc_fail("C26", "rand returned %d", r);
    for (int i = 0; i < 32; i++) if (b[i] != 0xEE || b[32+n+(size_t)i] != 0xEE) { mc_fail("C26", "rand of %zu bytes wrote outside of the buffer", n); break; }
    if (secure) {
        SR[si].live = false;
        if (SR[si].got) { // the stand-in of the secure source was used
            if (SR[si].got > n) mc_fail("C26", "rand asked the secure source for %zu bytes instead of %zu", SR[si].got, n);
            if (r == NECO_OK) for (size_t i = 0; i < n; i++) if (b[32+i] != 0xA5) { mc_fail("C26", "byte %zu of %zu was not filled by the secure generator", i, n); break; }
        } else if (r == NECO_OK && n >= 16) { bool same = true; for (size_t i = 0; i < n; i++) if (b[32+i] != 0xEE) same = false; if (same) mc_fail("C26", "the secure generator filled nothing"); }
        if (r == NECO_OK && n) mc_nontrivial();
        free(b); return;
    }
    prg--;
    if (r != NECO_OK || mixed) { unseed(); if (!prg) mixed = false; free(b); return; }
    if (before.known && now.known && now.n == before.n && now.seed == before.seed) {
        if (nR >= MAXR || now.n >= MAXR) mc_abandon();
        now.req[now.n++] = n; R[nR++] = (struct rec){ before, n, b }; mc_nontrivial();
    } else { unseed(); free(b); }
}
static void do_seed(struct cot *c, int64_t s, const struct state *st) {
    int64_t old = 0x1234567890; if (prg) mixed = true;
    int r = (int)op_callx(c, "set seed", K_OTHER, neco_rand_setseed(s, &old));
    if (r != NECO_OK) mc_fail("C26", "setting the seed returned %d", r);
    if (mixed) unseed();
    if (!now.known) { now.known = !mixed; now.seed = old; now.n = 0; }
    if (nkept < MAXR) { kept[nkept] = now; keptseed[nkept++] = old; }
    if (st) now = *st; else { now.known = true; now.seed = s; now.n = 0; }
    if (mixed) unseed();
}
static void nothing(int a, void **v) { (void)a; (void)v; neco_yield(); }
static void work(struct cot *c) {
    neco_chan *ch; int x = 3; neco_mutex m = { 0 }; op_begin(c, "work", K_OTHER, INT64_MAX);
    if (neco_chan_make(&ch, sizeof x, 1) == NECO_OK) { neco_chan_send(ch, &x); neco_chan_select(1, ch); neco_chan_case(ch, &x); neco_chan_release(ch); }
    neco_mutex_lock(&m); neco_mutex_unlock(&m); neco_start(nothing, 0); int64_t id = neco_lastid(); neco_yield(); neco_join(id);
    op_end(c, 0); cpend[c-cot] = 0;
}
static int prog_expand(char o) { return o == 'f' || o == 'F' || o == 'c' ? nsz : o == 's' ? 2 : 1; }
static bool prog_enabled(struct cot *c, int i, char o, int v) { (void)c; (void)i; (void)v; return o != 'o' || nkept > 0; }
static void prog_op(struct cot *c, int i, char o, int v) {
    (void)i;
    switch (o) {
    case 'f': do_rand(c, sz[v], false, INT64_MAX); break;
    case 'F': do_rand(c, sz[v], false, dl_in(1)); break;
    case 'c': do_rand(c, sz[v], true, INT64_MAX); break;
    case 's': do_seed(c, seeds[v], NULL); break;
    case 'o': { struct state st = kept[nkept-1]; do_seed(c, keptseed[nkept-1], &st); break; }
    case 'w': work(c); break;
    }
}
static void prog_root(void) { if (!mc_cfg("noseed", 0)) { if (neco_rand_setseed(1, NULL) != NECO_OK) mc_fail("C26", "setting the seed fails"); now = (struct state){ .known = true, .seed = 1 }; } }
static void prog_leave(struct cot *c, int i) { (void)c; (void)i; }
static void prog_judge(void) { for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].busy && strstr(cot[i].op, "rand")) mc_fail("C26", "rand never returns"); }
static void prog_inspect(struct cot *c) { (void)c; }
static void prog_last(struct cot *c) {
    (void)c; unsigned char b[1100]; while (neco_sleep(1) == NECO_CANCELED) {}
    for (size_t n = 1; n <= 9; n += 2) { // the sequence goes on
        char a[16][9]; bool diff = false; neco_rand_setseed(5, NULL); memset(a, 0, sizeof a);
        for (int i = 0; i < 16; i++) { neco_rand(a[i], n, NECO_PRNG); if (memcmp(a[i], a[0], n)) diff = true; }
        if (!diff) mc_fail("C26", "requests of %zu bytes repeat the same bytes", n);
    }
    for (int k = 0; k < nR; k++) {
        struct rec *r = &R[k];
        neco_rand_setseed(r->before.seed, NULL);
        for (int i = 0; i < r->before.n; i++) neco_rand(b, r->before.req[i], NECO_PRNG);
        memset(b, 0x11, sizeof b); neco_rand(b, r->n, NECO_PRNG);
        if (memcmp(b, r->b+32, r->n)) mc_fail("C26", "seed %ld: request %d (%zu bytes) gave other bytes than the same requests made alone", (long)r->before.seed, r->before.n, r->n);
        free(r->b); r->b = NULL;
        mc_outcome(r->n+1);
    }
}
static void prog_reset(void) { for (int k = 0; k < nR; k++) { free(R[k].b); } nR = nkept = nSR = prg = 0; mixed = false; now = (struct state){ 0 }; nopen = 0; memset(R, 0, sizeof R); }
static void finish(void) { if (nopen) mc_fail("C29", "a library handle is left open"); }
void mc_setup(void) {
    (void)sec; (void)secn; (void)secdone;
    const char *s = mc_cfgs("sz", "bdej"); for (; *s && nsz < 16; s++) sz[nsz++] = SZ[*s-'a'];
    prog_setup(); mc_hooks.end = finish;
}
