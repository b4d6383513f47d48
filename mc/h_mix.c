// Mixed workloads (C13, C14, C16, C19, C20 and the properties of the calls): one or two coroutines wait for
// something, every subset of the other activities of a program goes on next to them, and what they wait for
// then happens. However busy the rest is, they have to be woken.
// cfg: wk=<waiters> S sleep  R receive with a deadline  D descriptor with a deadline  E descriptor  G signal  W background work
//        C receive  N send  L mutex  M rwlock  V suspend  J join  Q waitgroup  T condition  U sleep that is canceled  A select  I generator
//      tr=<other activities, every subset of them> y yields  e descriptor events  s sleeps  c channel  g pending signal nobody waits for
//        b pending background work  r suspend and resume  m mutex  t starts coroutines  k cancelations  x a descriptor that never gets ready
//        w background work that comes back
//      two=1 two waiters, maxtr the largest subset, more=1 what is awaited happens while the rest is running or while all sleep
// WRAP: pthread_create pthread_detach pthread_join pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
#include <fcntl.h>
#include "mc.h"
#include "vth.h"
static char wk[32], tr[32]; static int nwk, ntr, two, maxtr;
struct wt { char k; bool due, done, trig; int turns; struct cot *c; int64_t id; int fd[2]; neco_chan *ch; neco_mutex mu; neco_mutex rw; neco_waitgroup wg; neco_cond cv; neco_gen *gen; int64_t child; int sig; bool opened, fin; };
static struct wt wt[2]; static int nwt;
static bool stop_; static int pfd[6] = {-1}; static int nrun_; static bool topen; static char gate; static int nspawn;
static struct cot *root; static int64_t tid[16]; static int ntid;
static const char *prop(char k) {
    switch (k) { case 'S': case 'R': case 'D': return "C14"; case 'E': return "C16,C13"; case 'G': return "C19,C13"; case 'W': return "C20,C13"; case 'C': case 'N': return "C02,C13"; case 'A': return "C04,C13"; case 'L': case 'M': return "C07,C08,C13"; case 'V': return "C12,C13"; case 'J': return "C11,C13"; case 'Q': return "C10,C13"; case 'T': return "C09,C13"; case 'U': return "C15,C13"; case 'I': return "C06,C13"; }
    return "*";
}
static const char *wname(char k) {
    switch (k) { case 'S': return "sleeps"; case 'R': return "receives with a deadline"; case 'D': return "waits for a descriptor with a deadline"; case 'E': return "waits for a descriptor"; case 'G': return "waits for a signal"; case 'W': return "waits for background work"; case 'C': return "receives"; case 'N': return "sends"; case 'A': return "selects"; case 'L': return "locks a mutex"; case 'M': return "locks a rwlock"; case 'V': return "is suspended"; case 'J': return "joins"; case 'Q': return "waits for a waitgroup"; case 'T': return "waits for a condition"; case 'U': return "was canceled"; case 'I': return "waits for a generator"; }
    return "waits";
}
static void turn(void) { // somebody else ran
    vt_now += 100000; mc_progress(); v_yield(); // threads get on meanwhile
    int lim = 8*ncot+60;
    for (int i = 0; i < nwt; i++) { struct wt *w = &wt[i];
        if (w->due && !w->done && ++w->turns > lim) mc_fail(prop(w->k), "a coroutine %s and is not woken during %d turns of others, although what it waits for has happened", wname(w->k), lim); }
}
static void judge(const char *how) {
    for (int i = 0; i < nwt; i++) { struct wt *w = &wt[i];
        if (w->due && !w->done) mc_fail(prop(w->k), "a coroutine %s and stays blocked (%s), although what it waits for has happened", wname(w->k), how); }
}
static void dflt(int s) { (void)s; }
static void raise_(int s) {
    struct sigaction a; mc_sigtab_get(s, &a); siginfo_t info; memset(&info, 0, sizeof info); info.si_signo = s;
    if (a.sa_handler == dflt || !(a.sa_flags & SA_SIGINFO)) { mc_fail("C19", "the signal handler is not installed"); return; }
    mc_log("    signal %d arrives", s); a.sa_sigaction(s, &info, NULL);
}
static void expect(struct wt *w, int r, int want) { if (r != want) mc_fail(prop(w->k), "a coroutine that %s gets %d instead of %d", wname(w->k), r, want); }
static void wwork(void *ud) { struct wt *w = ud; mc_progress(); while (!w->opened) v_block(&gate); v_point("work"); w->fin = w->due = true; mc_progress(); }
static void child(int argc, void **argv) {
    (void)argc; struct wt *w = argv[0]; struct cot *c = cot_new();
    op_call(c, "suspend", K_SUSP, INT64_MAX, neco_suspend());
    w->due = true; cot_exit(c);
}
static void genco(int argc, void **argv) {
    (void)argc; struct wt *w = argv[0]; struct cot *c = cot_new();
    op_call(c, "suspend", K_SUSP, INT64_MAX, neco_suspend());
    int v = 77; w->due = true; op_call(c, "yield", K_SEND, INT64_MAX, neco_gen_yield(&v)); cot_exit(c);
}
static void waiter(int argc, void **argv) {
    (void)argc; struct wt *w = argv[0]; struct cot *c = cot_new(); int r, v = 0; int64_t t; w->c = c; w->id = c->id; int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    switch (w->k) {
    case 'S': t = vt_now + 2*MS+MS/2; r = (int)op_call(c, "sleep", K_SLEEP, t, neco_sleep_dl(t)); expect(w, r, NECO_OK); break;
    case 'R': t = vt_now + 2*MS+MS/2; r = (int)op_call(c, "recv", K_RECV, t, neco_chan_recv_dl(w->ch, &v, t)); expect(w, r, NECO_TIMEDOUT); break;
    case 'D': t = vt_now + 2*MS+MS/2; r = (int)op_call(c, "wait read", K_EV, t, neco_wait_dl(w->fd[0], NECO_WAIT_READ, t)); expect(w, r, NECO_TIMEDOUT); break;
    case 'E': r = (int)op_call(c, "wait read", K_EV, INT64_MAX, neco_wait(w->fd[0], NECO_WAIT_READ)); expect(w, r, NECO_OK); break;
    case 'G': neco_signal_watch(w->sig); r = (int)op_call(c, "signal wait", K_SIG, INT64_MAX, neco_signal_wait()); expect(w, r, w->sig); break;
    case 'W': r = (int)op_call(c, "work", K_WORK, INT64_MAX, neco_work(w == wt ? 0 : 2, wwork, w)); expect(w, r, NECO_OK); if (!w->fin) mc_fail("C20", "work returned before its function finished"); break;
    case 'C': r = (int)op_call(c, "recv", K_RECV, INT64_MAX, neco_chan_recv(w->ch, &v)); expect(w, r, NECO_OK); if (v != 5) mc_fail("C01", "received %d", v); break;
    case 'N': v = 5; r = (int)op_call(c, "send", K_SEND, INT64_MAX, neco_chan_send(w->ch, &v)); expect(w, r, NECO_OK); break;
    case 'A': r = (int)op_call(c, "select", K_SEL, INT64_MAX, neco_chan_selectv(1, &w->ch)); expect(w, r, 0); r = (int)op_callx(c, "case", K_OTHER, neco_chan_case(w->ch, &v)); expect(w, r, NECO_OK); if (v != 5) mc_fail("C01", "received %d", v); break;
    case 'L': r = (int)op_call(c, "lock", K_LOCK, INT64_MAX, neco_mutex_lock(&w->mu)); expect(w, r, NECO_OK); break;
    case 'M': r = (int)op_call(c, "rdlock", K_LOCK, INT64_MAX, neco_mutex_rdlock(&w->rw)); expect(w, r, NECO_OK); break;
    case 'V': r = (int)op_call(c, "suspend", K_SUSP, INT64_MAX, neco_suspend()); expect(w, r, NECO_OK); break;
    case 'J': r = (int)op_call(c, "join", K_OTHER, INT64_MAX, neco_join(w->child)); expect(w, r, NECO_OK); break;
    case 'Q': r = (int)op_call(c, "wg_wait", K_WG, INT64_MAX, neco_waitgroup_wait(&w->wg)); expect(w, r, NECO_OK); break;
    case 'T': neco_mutex_lock(&w->mu); r = (int)op_call(c, "cond wait", K_COND, INT64_MAX, neco_cond_wait(&w->cv, &w->mu)); expect(w, r, NECO_OK); break;
    case 'U': t = vt_now + 100000*MS; r = (int)op_call(c, "sleep", K_SLEEP, t, neco_sleep_dl(t)); expect(w, r, NECO_CANCELED); break;
    case 'I': r = (int)op_call(c, "gen next", K_RECV, INT64_MAX, neco_gen_next(w->gen, &v)); expect(w, r, NECO_OK); if (v != 77) mc_fail("C06", "received %d", v); neco_gen_close(w->gen); neco_gen_release(w->gen); break;
    }
    w->done = true; mc_nontrivial(); mc_outcome((uint64_t)w->k*7+(uint64_t)(w-wt)+(uint64_t)w->turns*131);
    cot_exit(c);
}
static void prepare(struct wt *w) {
    struct cot *c = root;
    switch (w->k) {
    case 'R': case 'C': case 'N': case 'A': neco_chan_make(&w->ch, sizeof(int), 0); break;
    case 'L': neco_mutex_init(&w->mu); neco_mutex_lock(&w->mu); break;
    case 'T': neco_mutex_init(&w->mu); neco_cond_init(&w->cv); break;
    case 'M': neco_mutex_init(&w->rw); neco_mutex_lock(&w->rw); break;
    case 'Q': neco_waitgroup_init(&w->wg); neco_waitgroup_add(&w->wg, 1); break;
    case 'J': op_callx(c, "start", K_OTHER, neco_start(child, 1, w)); w->child = neco_lastid(); break;
    case 'I': op_callx(c, "start", K_OTHER, neco_gen_start(&w->gen, sizeof(int), genco, 1, w)); w->child = neco_lastid(); break;
    }
}
static void trigger(struct wt *w) { // root makes it happen
    struct cot *c = root; int v = 5;
    mc_log("    trigger for %c", w->k);
    switch (w->k) {
    case 'E': w->due = true; if (__real_write(w->fd[1], "x", 1) != 1) mc_abandon(); break;
    case 'G': w->due = true; raise_(w->sig); break;
    case 'W': w->opened = true; v_unblock(&gate); break;
    case 'C': case 'A': w->due = true; op_callx(c, "send", K_OTHER, neco_chan_send(w->ch, &v)); break;
    case 'N': v = 0; w->due = true; op_callx(c, "recv", K_OTHER, neco_chan_recv(w->ch, &v)); if (v != 5) mc_fail("C01", "received %d", v); break;
    case 'L': w->due = true; op_callx(c, "unlock", K_OTHER, neco_mutex_unlock(&w->mu)); break;
    case 'M': w->due = true; op_callx(c, "unlock", K_OTHER, neco_mutex_unlock(&w->rw)); break;
    case 'T': w->due = true; op_callx(c, "signal", K_OTHER, neco_cond_signal(&w->cv)); break;
    case 'Q': w->due = true; op_callx(c, "done", K_OTHER, neco_waitgroup_done(&w->wg)); break;
    case 'V': w->due = true; op_callx(c, "resume", K_OTHER, neco_resume(w->id)); break;
    case 'J': case 'I': op_callx(c, "resume", K_OTHER, neco_resume(w->child)); break;
    case 'U': w->due = true; op_callx(c, "cancel", K_OTHER, neco_cancel(w->id)); break;
    }
    w->trig = true;
}
// ------------------------------------------------------------ other activities
static neco_chan *tch; static neco_mutex tmu; static int64_t tpeer, tvic;
static void twork(void *ud) { (void)ud; while (!topen) v_block(&gate); }
static void twork1(void *ud) { (void)ud; v_point("work"); }
static void tiny(int argc, void **argv) { (void)argc; (void)argv; struct cot *c = cot_new(); turn(); cot_exit(c); }
static void traffic(int argc, void **argv) {
    (void)argc; char k = (char)(intptr_t)argv[0]; struct cot *c = cot_new(); int v = 0, n = 0; int ot; neco_setcanceltype(NECO_CANCEL_INLINE, &ot);
    tid[ntid++] = c->id;
    if (k == 'g') { neco_signal_watch(SIGUSR2); raise_(SIGUSR2); }
    if (k == 'R') tpeer = c->id;
    if (k == 'K') tvic = c->id;
    while (!stop_ && n++ < 3000) {
        switch (k) {
        case 'y': op_callx(c, "yield", K_OTHER, neco_yield()); break;
        case 'e': op_callx(c, "wait read (ready)", K_OTHER, neco_wait(pfd[2], NECO_WAIT_READ)); break;
        case 's': { int64_t t = vt_now+MS; op_call(c, "sleep", K_SLEEP, t, neco_sleep_dl(t)); break; }
        case 'c': op_call(c, "send", K_SEND, INT64_MAX, neco_chan_send(tch, &n)); break;
        case 'C': op_call(c, "recv", K_RECV, INT64_MAX, neco_chan_recv(tch, &v)); break;
        case 'g': op_call(c, "suspend", K_SUSP, INT64_MAX, neco_suspend()); break;
        case 'b': op_call(c, "work", K_WORK, INT64_MAX, neco_work(1, twork, NULL)); break;
        case 'w': op_call(c, "work", K_WORK, INT64_MAX, neco_work(1, twork1, NULL)); break;
        case 'r': op_callx(c, "resume", K_OTHER, neco_resume(tpeer)); op_callx(c, "yield", K_OTHER, neco_yield()); break;
        case 'R': op_call(c, "suspend", K_SUSP, INT64_MAX, neco_suspend()); break;
        case 'm': case 'n': op_call(c, "lock", K_LOCK, INT64_MAX, neco_mutex_lock(&tmu)); op_callx(c, "yield", K_OTHER, neco_yield()); op_callx(c, "unlock", K_OTHER, neco_mutex_unlock(&tmu)); break;
        case 't': if (ncot < MAXCO-8) op_callx(c, "start", K_OTHER, neco_start(tiny, 0)); else op_callx(c, "yield", K_OTHER, neco_yield()); break;
        case 'k': op_callx(c, "cancel", K_OTHER, neco_cancel(tvic)); op_callx(c, "yield", K_OTHER, neco_yield()); break;
        case 'K': { int64_t t = vt_now+100000*MS; op_call(c, "sleep", K_SLEEP, t, neco_sleep_dl(t)); break; }
        case 'x': op_call(c, "wait read", K_EV, INT64_MAX, neco_wait(pfd[4], NECO_WAIT_READ)); break;
        }
        turn();
    }
    if (n >= 3000) mc_fail("C13", "a program with endless activity does not get on: its other coroutines never finish");
    if (k == 'g') op_callx(c, "signal wait", K_OTHER, neco_signal_wait_dl(vt_now+MS));
    nrun_--; cot_exit(c);
}
static void tstart(char k) { op_callx(root, "start", K_OTHER, neco_start(traffic, 1, (void*)(intptr_t)k)); nrun_++; turn(); }
static void start_traffic(int sub) {
    for (int i = 0; i < ntr; i++) if (sub >> i & 1) {
        char k = tr[i]; mc_log("    activity %c", k);
        if (k == 'c') { neco_chan_make(&tch, sizeof(int), 0); tstart('C'); }
        if (k == 'r') tstart('R');
        if (k == 'k') tstart('K');
        if (k == 'm') { neco_mutex_init(&tmu); tstart('n'); }
        tstart(k);
    }
}
static void start_waiters(void) { for (int i = 0; i < nwt; i++) { op_callx(root, "start", K_OTHER, neco_start(waiter, 1, &wt[i])); turn(); } }
static void main_(int argc, void **argv) {
    (void)argc; (void)argv; root = cot_new(); struct cot *c = root;
    nwt = 1+two;
    for (int i = 0; i < nwt; i++) { struct wt *w = &wt[i]; w->k = wk[mc_choose(nwk)]; w->sig = i ? SIGINT : SIGUSR1; w->fd[0] = i ? 326 : 320; w->fd[1] = i ? 327 : 321; }
    int sub = mc_choose(1<<ntr), cnt = __builtin_popcount((unsigned)sub); if (cnt > maxtr) { root->alive = false; return; }
    int first = mc_choose(2), style = mc_choose(3);
    for (int i = 0; i < nwt; i++) prepare(&wt[i]);
    if (first) start_waiters();
    start_traffic(sub);
    if (!first) start_waiters();
    // style: 0 after some yields, 1 after a sleep, 2 after a wait for something that is ready
    for (int i = 0; i < nwt; i++) {
        if (style == 0) for (int k = 0; k < 3; k++) { op_callx(c, "yield", K_OTHER, neco_yield()); turn(); }
        else if (style == 1) { int64_t t = vt_now+3*MS; op_call(c, "sleep", K_SLEEP, t, neco_sleep_dl(t)); turn(); }
        else { op_callx(c, "wait read (ready)", K_OTHER, neco_wait(pfd[2], NECO_WAIT_READ)); turn(); }
        trigger(&wt[i]); turn();
    }
    for (int i = 0; i < nwt; i++) { while (!wt[i].id) { op_callx(c, "yield", K_OTHER, neco_yield()); turn(); } op_call(c, "join", K_OTHER, INT64_MAX, neco_join(wt[i].id)); turn(); if (!wt[i].done) mc_fail("C11", "join returned before the end of the coroutine"); }
    stop_ = topen = true; v_unblock(&gate);
    while (nrun_ > 0) {
        for (int i = 0; i < ntid; i++) op_callx(c, "cancel", K_OTHER, neco_cancel(tid[i]));
        op_callx(c, "yield", K_OTHER, neco_yield()); turn();
        if (mc_seq > 100000) mc_abandon();
    }
    if (tch) neco_chan_release(tch);
    for (int i = 0; i < nwt; i++) if (wt[i].ch) neco_chan_release(wt[i].ch);
    cot_exit(c);
}
static void run(void) { int r = neco_start(main_, 0); if (r != NECO_OK) mc_fail("*", "start returned %d", r); }
static void quiesce(void) { judge("all is quiet"); for (int i = 0; i < ncot; i++) if (cot[i].alive && cot[i].busy && cot[i].mustrun) mc_fail("C13", "coroutine %d never gets on in %s", i, cot[i].op); mc_fail("*", "blocked for good"); }
static int external(void) { for (int i = 0; i < nwt; i++) if (wt[i].k != 'W' && wt[i].due && !wt[i].done) judge("the scheduler sleeps"); return 0; }
static bool exempt(int i) { return cot[i].kind == K_WORK; }
static void end_(void) { v_drain(); if (vth_left()) mc_fail("C20,C29", "a thread is left at the end of the runtime"); }
static void reset(void) {
    memset(wt, 0, sizeof wt); nwt = 0; stop_ = topen = false; nrun_ = 0; root = NULL; tch = NULL; tpeer = tvic = 0; ntid = 0; nspawn = 0; memset(&tmu, 0, sizeof tmu);
    vth_reset();
    for (int i = 0; i < 6; i += 2) { if (pfd[0] >= 0) { __real_close(320+i); __real_close(321+i); } }
    if (pfd[0] >= 0) { __real_close(326); __real_close(327); }
    for (int i = 0; i < 8; i += 2) { int p[2]; if (__real_pipe(p)) mc_abandon(); dup2(p[0], 320+i); dup2(p[1], 321+i); __real_close(p[0]); __real_close(p[1]); }
    for (int i = 0; i < 6; i++) pfd[i] = 320+i;
    if (__real_write(pfd[3], "x", 1) != 1) mc_abandon();
    static const int ALL[] = { SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGPIPE, SIGUSR1, SIGUSR2, SIGALRM, SIGILL, SIGFPE, SIGSEGV, SIGBUS, SIGTRAP };
    for (size_t i = 0; i < sizeof ALL/sizeof *ALL; i++) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = dflt; mc_sigtab_set(ALL[i], &a); }
}
void mc_setup(void) {
    snprintf(wk, sizeof wk, "%s", mc_cfgs("wk", "SREGWC")); nwk = (int)strlen(wk);
    snprintf(tr, sizeof tr, "%s", mc_cfgs("tr", "yesgb")); ntr = (int)strlen(tr);
    two = mc_cfg("two", 0); maxtr = mc_cfg("maxtr", 99);
    vth_setup();
    mc_hooks.run = run; mc_hooks.quiesce = quiesce; mc_hooks.reset = reset; mc_hooks.external = external; mc_hooks.end = end_; mc_hooks.dlexempt = exempt;
}
