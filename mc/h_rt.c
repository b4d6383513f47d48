// Several runtimes at once, one per virtual thread (C21).
// ops: s message through a channel to another coroutine   n start and join a coroutine   g run a generator   l lock and cond of one's own
//      x use of an object of another runtime (v: which call)   j use of a coroutine id of another runtime (v)   S statistics   r random numbers (v)   w background work   q restart the runtime
//      Y read and write through a pipe   y p T
// cfg: n threads, per, budget, dev
// WRAP: pthread_create pthread_detach pthread_join pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast syscall getpid
#include "prog.h"
#include "vth.h"
#include <stdarg.h>
#include <sys/syscall.h>
#include <fcntl.h>
pid_t __wrap_getpid(void) { return 1000; }
long __wrap_syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long); va_end(ap);
    long __real_syscall(long,...);
    if (n == SYS_gettid) return 1000+vcur;
    return __real_syscall(n, a, b, c);
}
#define MAXT 4
struct obj { bool pub; neco_chan *ch, *ch2; neco_mutex mu; neco_waitgroup wg; neco_cond cv; neco_gen *gen; neco_stream *st; int64_t ids[3]; };
static struct obj O[MAXT]; static int ndone; static char bar, pubsync;
static int64_t allids[256]; static int nids;
static int fp[MAXT][2];
static void note_id(int64_t id) {
    for (int i = 0; i < nids; i++) if (allids[i] == id) mc_fail("C21,C11", "two coroutines have the same id");
    if (nids < 256) allids[nids++] = id;
}
static void perr(int r, const char *what) { // last error belongs to this thread
    int l = neco_lasterr(); if (l != r) mc_fail("C21,C25", "thread %d: %s returned %d but the last error is %d", vcur, what, r, l);
}
#define OKC(c,name,e) ({ int _r = (int)op_call(c, name, K_OTHER, INT64_MAX, e); perr(_r, name); if (_r != NECO_OK) mc_fail("C21", "thread %d: %s returned %d", vcur, name, _r); _r; })
static void echo(int argc, void **argv) { // receives from ch, answers on ch2
    (void)argc; struct obj *o = argv[0]; int t = (int)(o-O);
    struct cot *c = cot_new(); note_id(c->id); o->ids[1] = c->id;
    while (1) {
        int v = -1;
        int r = (int)op_call(c, "recv", K_RECV, INT64_MAX, neco_chan_recv(o->ch, &v)); perr(r, "recv");
        if (r == NECO_CLOSED) break;
        if (r != NECO_OK) mc_fail("C21", "thread %d: recv returned %d", t, r);
        if (vcur != t) mc_fail("C21", "a coroutine of thread %d runs on thread %d", t, vcur);
        v += 1000; OKC(c, "send", neco_chan_send(o->ch2, &v));
    }
    cot_exit(c);
}
static void child(int argc, void **argv) {
    (void)argc; int t = (int)(intptr_t)argv[0];
    struct cot *c = cot_new(); note_id(c->id);
    if (vcur != t) mc_fail("C21", "a coroutine of thread %d runs on thread %d", t, vcur);
    if (neco_starterid() != O[t].ids[0]) mc_fail("C21,C11", "wrong starter id");
    op_callx(c, "yield", K_OTHER, neco_yield());
    cot_exit(c);
}
static void genfn(int argc, void **argv) {
    (void)argc; int t = (int)(intptr_t)argv[0];
    struct cot *c = cot_new(); note_id(c->id);
    for (int i = 0; i < 2; i++) { int v = 77+t; int r = (int)op_call(c, "gen_yield", K_SEND, INT64_MAX, neco_gen_yield(&v)); if (r != NECO_OK) break; }
    cot_exit(c);
}
static void wfn(void *ud) { (*(int*)ud)++; mc_progress(); }
#define NX 44
static int xcall(struct obj *o, struct obj *mine, int v) {
    char b[16] = {0}; neco_chan *cs[2] = { o->ch, o->ch }; int64_t past = neco_now()-1;
    switch (v) {
    case 0: return neco_chan_retain(o->ch);
    case 1: return neco_chan_release(o->ch);
    case 2: return neco_chan_send(o->ch, b);
    case 3: return neco_chan_send_dl(o->ch, b, past);
    case 4: return neco_chan_broadcast(o->ch, b);
    case 5: return neco_chan_recv(o->ch, b);
    case 6: return neco_chan_recv_dl(o->ch, b, past);
    case 7: return neco_chan_tryrecv(o->ch, b);
    case 8: return neco_chan_close(o->ch);
    case 9: return neco_chan_select(1, o->ch);
    case 10: return neco_chan_select_dl(past, 1, o->ch);
    case 11: return neco_chan_selectv(2, cs);
    case 12: return neco_chan_selectv_dl(2, cs, past);
    case 13: return neco_chan_tryselect(1, o->ch);
    case 14: return neco_chan_tryselectv(2, cs);
    case 15: return neco_chan_case(o->ch, b);
    case 16: return neco_chan_select(2, mine->ch2, o->ch);
    case 17: return neco_gen_retain(o->gen);
    case 18: return neco_gen_release(o->gen);
    case 19: return neco_gen_next(o->gen, b);
    case 20: return neco_gen_next_dl(o->gen, b, past);
    case 21: return neco_gen_close(o->gen);
    case 22: return neco_mutex_lock(&o->mu);
    case 23: return neco_mutex_lock_dl(&o->mu, past);
    case 24: return neco_mutex_trylock(&o->mu);
    case 25: return neco_mutex_unlock(&o->mu);
    case 26: return neco_mutex_rdlock(&o->mu);
    case 27: return neco_mutex_rdlock_dl(&o->mu, past);
    case 28: return neco_mutex_tryrdlock(&o->mu);
    case 29: return neco_waitgroup_add(&o->wg, 1);
    case 30: return neco_waitgroup_done(&o->wg);
    case 31: return neco_waitgroup_wait(&o->wg);
    case 32: return neco_waitgroup_wait_dl(&o->wg, past);
    case 33: return neco_cond_signal(&o->cv);
    case 34: return neco_cond_broadcast(&o->cv);
    case 35: return neco_cond_wait(&o->cv, &mine->mu);
    case 36: return neco_cond_wait_dl(&o->cv, &o->mu, past);
    case 37: return neco_cond_wait(&mine->cv, &o->mu);
    case 38: return (int)neco_stream_read(o->st, b, 1);
    case 39: return (int)neco_stream_write(o->st, b, 1);
    case 40: return (int)neco_stream_read_byte(o->st);
    case 41: return neco_stream_unread_byte(o->st);
    case 42: return neco_stream_flush(o->st);
    case 43: return neco_stream_close(o->st);
    }
    return 0;
}
static int prog_expand(char o) { switch (o) { case 'x': return NX; case 'j': return 5; case 'r': return 2; } return 1; }
static bool prog_enabled(struct cot *c, int i, char o, int v) { (void)c; (void)i; (void)o; (void)v; return true; }
static struct obj *other(int t) { for (int k = 1; k < N; k++) if (O[(t+k)%N].pub) { struct vcv *s = v_obj(&pubsync); vc_acq(s); return &O[(t+k)%N]; } return NULL; }
static void prog_op(struct cot *c, int t, char op, int v) {
    struct obj *m = &O[t], *o;
    switch (op) {
    case 's': { int x = t*10+v; OKC(c, "send", neco_chan_send(m->ch, &x)); int y = -1; OKC(c, "recv", neco_chan_recv(m->ch2, &y)); if (y != x+1000) mc_fail("C21", "wrong answer"); mc_nontrivial(); break; }
    case 'n': { OKC(c, "start", neco_start(child, 1, (void*)(intptr_t)t)); int64_t id = neco_lastid(); OKC(c, "join", neco_join(id)); break; }
    case 'g': { int x = -1; int r = (int)op_call(c, "gen_next", K_RECV, INT64_MAX, neco_gen_next(m->gen, &x)); perr(r, "gen_next"); if (r == NECO_OK ? x != 77+t : r != NECO_CLOSED) mc_fail("C21", "thread %d: generator gives %d (%d)", t, x, r); mc_nontrivial(); break; }
    case 'l': OKC(c, "lock", neco_mutex_lock(&m->mu)); OKC(c, "signal", neco_cond_signal(&m->cv)); OKC(c, "unlock", neco_mutex_unlock(&m->mu)); OKC(c, "add", neco_waitgroup_add(&m->wg, 1)); OKC(c, "done", neco_waitgroup_done(&m->wg)); break;
    case 'x':
        if (!(o = other(t))) break;
        { op_beginx(c, "foreign", K_OTHER, INT64_MAX); int r = xcall(o, m, v), e = errno; op_end(c, r);
          perr(r == -1 ? neco_lasterr() : r, "foreign");
          int want = v == 37 ? NECO_PERM : NECO_PERM;
          if (r != want && !(r == -1 && e == EPERM)) mc_fail("C21", "call %d on an object of another runtime returned %d", v, r); mc_nontrivial(); }
        break;
    case 'j':
        if (!(o = other(t))) break;
        { int64_t id = o->ids[v == 4]; op_beginx(c, "foreign id", K_OTHER, INT64_MAX);
          int r = v == 0 ? neco_resume(id) : v == 1 ? neco_cancel(id) : v == 2 ? neco_cancel_dl(id, neco_now()+MS) : neco_join(id); op_end(c, r); perr(r, "foreign id");
          if (v == 3 || v == 4 ? r != NECO_OK && r != NECO_NOTFOUND : r != NECO_NOTFOUND) mc_fail("C21", "use of a coroutine id of another runtime returned %d", r); mc_nontrivial(); }
        break;
    case 'S': mc_stats_upper(); { neco_stats s; neco_getstats(&s); size_t n = 0; for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].th == vcur) n++; if (s.coroutines != n) mc_fail("C21,C24", "thread %d: %zu coroutines reported, %zu are alive", t, s.coroutines, n); } break;
    case 'r': { unsigned char b[20]; OKC(c, "rand", neco_rand(b, sizeof b, v ? NECO_CSPRNG : NECO_PRNG)); break; }
    case 'w': { int x = 5; OKC(c, "work", neco_work(t, wfn, &x)); if (x != 6) mc_fail("C21,C20", "work did not run once"); mc_nontrivial(); break; }
    case 'Y': { char b = (char)('a'+t), d = 0; OKC(c, "pwrite", neco_write(fp[t][1], &b, 1) == 1 ? 0 : -1); OKC(c, "pread", neco_read(fp[t][0], &d, 1) == 1 ? 0 : -1); if (d != b) mc_fail("C21,C17", "wrong byte"); mc_nontrivial(); break; }
    }
}
static int runs[MAXT];
static void root(int argc, void **argv) {
    (void)argc; int t = (int)(intptr_t)argv[0]; struct obj *o = &O[t];
    struct cot *c = cot_new(); note_id(c->id); bool first = runs[t]++ == 0;
    if (first) {
        o->ids[0] = c->id;
        if (neco_is_main_thread() != (vcur == 0)) mc_fail("C21", "neco_is_main_thread is wrong on thread %d", vcur);
        OKC(c, "make", neco_chan_make(&o->ch, sizeof(int), 1)); OKC(c, "make", neco_chan_make(&o->ch2, sizeof(int), 0));
        neco_mutex_init(&o->mu); neco_waitgroup_init(&o->wg); neco_cond_init(&o->cv);
        if (neco_stream_make_buffered(&o->st, fp[t][0]) != NECO_OK) mc_fail("C21", "stream");
        OKC(c, "start", neco_start(echo, 1, o));
        OKC(c, "gen_start", neco_gen_start(&o->gen, sizeof(int), genfn, 1, (void*)(intptr_t)t));
        { struct vcv *s = v_obj(&pubsync); vc_rel(s); } o->pub = true; mc_progress();
    }
    for (int n = 0; n < per && left_total > 0; n++) {
        int k = mc_choose(ntab+1); if (k == ntab) break;
        left_total--;
        if (mc_verbose) mc_log("thread %d: op %c%d", t, tab[k].o, tab[k].v);
        switch (tab[k].o) {
        case 'y': op_callx(c, "yield", K_OTHER, neco_yield()); break;
        case 'T': vt_now += unit*MS; break;
        case 'p': do_sleep(c, dl_in(1)); break;
        default: prog_op(c, t, tab[k].o, tab[k].v);
        }
        mc_outcome((uint64_t)(t*100+tab[k].o)*50+(uint64_t)tab[k].v);
        if (vcur != t) mc_fail("C21", "a coroutine of thread %d runs on thread %d", t, vcur);
    }
    OKC(c, "close", neco_chan_close(o->ch));
    int64_t e = o->ids[1]; OKC(c, "join", neco_join(e));
    { struct vcv *s = v_obj(&pubsync); vc_rel(s); } // ids and objects are not used from now on
    ndone++; mc_progress(); if (ndone == N) v_unblock(&bar); while (ndone < N) v_block(&bar);
    vc_acq(v_obj(&pubsync));
    OKC(c, "lock", neco_mutex_lock(&o->mu)); OKC(c, "unlock", neco_mutex_unlock(&o->mu));
    { int x = 3; int r = (int)op_call(c, "recv", K_RECV, INT64_MAX, neco_chan_recv(o->ch, &x)); if (r != NECO_CLOSED) mc_fail("C21", "channel changed"); }
    int64_t d = vt_now+MS; int r = (int)op_call(c, "wg_wait", K_WG, d, neco_waitgroup_wait_dl(&o->wg, d)); if (r != NECO_OK) mc_fail("C21", "wait group changed");
    for (int k = 0; ; k++) { int x = -1; r = (int)op_call(c, "gen_next", K_RECV, INT64_MAX, neco_gen_next(o->gen, &x)); if (r == NECO_CLOSED) break; if (k > 3 || r != NECO_OK || x != 77+t) mc_fail("C21", "generator changed"); }
    OKC(c, "release", neco_chan_release(o->ch)); OKC(c, "release", neco_chan_release(o->ch2)); OKC(c, "release", neco_gen_release(o->gen));
    op_call(c, "stream_close", K_OTHER, INT64_MAX, neco_stream_close(o->st));
    cot_exit(c);
}
static void *tmain(void *arg) {
    int t = (int)(intptr_t)arg;
    int r = neco_start(root, 1, arg);
    if (r != NECO_OK) mc_fail("C21", "thread %d: neco_start returned %d", t, r);
    for (int i = 0; i < ncot; i++) if (cot[i].th == t && cot[i].alive) mc_fail("C21,C11", "the runtime of thread %d ended with a coroutine alive", t);
    if (neco_getid() > 0) mc_fail("C21", "still inside of a coroutine");
    return NULL;
}
static void rrun(void) {
    pthread_t th[MAXT];
    for (int t = 0; t < N; t++) { int f[2]; if (__real_pipe(f)) abort(); for (int k = 0; k < 2; k++) { int d = 300+t*2+k; dup2(f[k], d); __real_close(f[k]); __real_fcntl(d, F_SETFL, O_NONBLOCK); fp[t][k] = d; } }
    for (int t = 1; t < N; t++) pthread_create(&th[t], NULL, tmain, (void*)(intptr_t)t);
    tmain((void*)0);
    for (int t = 1; t < N; t++) pthread_join(th[t], NULL);
    if (vth_left()) mc_fail("C20,C21,C29", "a thread is left at the end of the runtimes");
}
static void prog_root(void) {} static void prog_leave(struct cot *c, int i) { (void)c; (void)i; } static void prog_judge(void) {} static void prog_inspect(struct cot *c) { (void)c; } static void prog_last(struct cot *c) { (void)c; }
static void rquiesce(void) { mc_fail("C21", "the runtimes are blocked for good"); }
static void prog_reset(void) { vth_reset(); memset(O, 0, sizeof O); ndone = nids = 0; memset(runs, 0, sizeof runs); for (int i = 300; i < 308; i++) __real_close(i); }
void mc_setup(void) {
    prog_setup(); vth_setup();
    mc_hooks.run = rrun; mc_hooks.quiesce = rquiesce;
}
