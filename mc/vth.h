#pragma once
// Virtual threads: every thread of the program under test is a fiber, switched
// only at synchronisation operations. Preemptions are deviations (mc_dev), the
// choice after a blocking operation is free. With the "inst" build the memory
// accesses of the library are checked for data races (vector clocks).
// The harness lists the pthread functions in its WRAP line (see VTH_WRAPS).
#include <pthread.h>
#include <sched.h>
#define VT 8
#define VSTK (256*1024)
enum { V_FREE, V_RUN, V_MUTEX, V_COND, V_JOIN, V_SLEEP, V_DONE };
struct vt {
    int st; void *sp; char *stack, *tls; void *(*fn)(void*); void *arg, *ret;
    bool detached, forever, timedout, nopoke; void *obj; int64_t until; int en; int stut; uint64_t lastprog;
    uint32_t vc[VT]; const char *what; uint64_t lastrun;
};
static struct vt vt[VT]; static int vcur, vcount, vlive, vpeak; static int vspur, vlate, vstut, vfree, vcreated, vforced; static uint64_t vforcedprog, vtick;
static char *v_tls; static size_t v_tlsn; static char *v_tls0;
__attribute__((noinline)) void vth_switch(void **from, void *to);
__asm__(".globl vth_switch\nvth_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static void v_go(int n) {
    if (n == vcur) return;
    int o = vcur;
    if (mc_verbose > 1) mc_log("    [thread %d -> %d]", o, n);
    vt[o].en = errno; memcpy(vt[o].tls, v_tls, v_tlsn);
    vcur = n; mc_curth = n; memcpy(v_tls, vt[n].tls, v_tlsn); errno = vt[n].en;
    vt[n].stut = 0; vt[n].lastrun = vt[o].lastrun = ++vtick;
    vth_switch(&vt[o].sp, vt[n].sp);
}
static bool v_can(int i) {
    struct vt *t = &vt[i];
    return t->st == V_RUN || ((t->st == V_SLEEP || t->st == V_COND) && t->until <= vt_now);
}
static void v_wake(int i) { if (vt[i].st == V_COND) vt[i].timedout = vt[i].until <= vt_now; vt[i].st = V_RUN; }
// the current thread cannot go on: somebody else, or time, has to
static void v_schedule(void) {
    while (1) {
        int R[VT], n = 0; int64_t e = INT64_MAX; bool fv = false, other = false; int next = -1;
        for (int i = 0; i < VT; i++) {
            if (v_can(i)) R[n++] = i;
            if (vt[i].st == V_SLEEP && vt[i].forever) fv = true;
        }
        for (int i = 0; i < VT; i++) { struct vt *t = &vt[i];
            if (v_can(i)) continue;
            if ((t->st == V_SLEEP && !t->forever) || (t->st == V_COND && !fv)) if (t->until < e) { e = t->until; next = i; } }
        (void)other;
        if (n && next >= 0 && mc_dev(2)) { mc_log("    (time passes before thread %d goes on)", R[0]); vt_now = e+1; R[0] = next; n = 1; }
        if (n == 0) {
            if (next < 0) {
                if (fv) { // nothing can ever happen by itself
                    for (int i = 0; i < VT; i++) if (vt[i].st == V_SLEEP && vt[i].forever) { vt[i].st = V_RUN; v_go(i); if (vcur == i) break; }
                    if (vt[vcur].st == V_RUN) { mc_quiescent("all threads sleep"); }
                    continue;
                }
                mc_fail("C20,C21,C28,C29,C17", "deadlock: all threads are blocked");
                mc_abandon();
            }
            vt_now = e+1; R[n++] = next;
        }
        int k = R[n > 1 ? mc_choose(n) : 0];
        v_wake(k); v_go(k);
        if (vt[vcur].st == V_RUN) return;
    }
}
// forced to let others run: a free choice at first, then the one that waited longest (no starvation)
static int v_force(int *R, int n) {
    if (vforcedprog != mc_prog) { vforcedprog = mc_prog; vforced = 0; }
    if (vforced++ < vfree) return n > 1 ? mc_choose(n) : 0;
    int k = 0; for (int i = 1; i < n; i++) if (vt[R[i]].lastrun < vt[R[k]].lastrun) k = i;
    return k;
}
static void v_point(const char *what) { // the current thread can go on
    struct vt *t = &vt[vcur];
    if (vlive < 2) return;
    if (t->lastprog != mc_prog) { t->lastprog = mc_prog; t->stut = 0; } else t->stut++;
    int R[VT], n = 0;
    for (int i = 0; i < VT; i++) if (i != vcur && v_can(i)) R[n++] = i;
    if (!n) return;
    int k;
    if (t->stut > vstut) { t->stut = 0; k = 1+v_force(R, n); } // it only polls: let the others go on
    else k = mc_dev(1+n);
    if (k) { t->what = what; v_wake(R[k-1]); v_go(R[k-1]); }
}
static void v_yield(void) {
    if (vlive < 2) return;
    int R[VT], n = 0;
    for (int i = 0; i < VT; i++) if (i != vcur && v_can(i)) R[n++] = i;
    if (n) { int k = R[v_force(R, n)]; v_wake(k); v_go(k); }
}
static void vth_sleep(int64_t ns, bool forever) {
    struct vt *t = &vt[vcur]; int me = vcur;
    t->st = V_SLEEP; t->until = vt_now+ns; t->forever = forever; t->nopoke = false;
    if (forever) {
        bool any = false; for (int i = 0; i < VT; i++) if (i != vcur && (v_can(i) || (vt[i].st == V_SLEEP && !vt[i].forever))) any = true;
        if (!any) { t->st = V_RUN; mc_quiescent("sleeping"); return; }
    }
    t->st = V_SLEEP; v_schedule(); (void)me;
}
static void v_poke(void) { for (int i = 0; i < VT; i++) if (vt[i].st == V_SLEEP && !vt[i].nopoke && i != vcur) vt[i].st = V_RUN; } // descriptors changed: sleepers look again
static void v_delay(int64_t ns) { struct vt *t = &vt[vcur]; t->st = V_SLEEP; t->until = vt_now+ns; t->forever = false; t->nopoke = true; v_schedule(); }
static void v_drain(void) { for (int i = 0; i < 300 && vlive > 1; i++) v_delay(20*MS); } // let the other threads finish
static void v_block(void *obj) { vt[vcur].st = V_JOIN; vt[vcur].obj = obj; v_schedule(); } // until v_unblock(obj)
static void v_unblock(void *obj) { for (int i = 0; i < VT; i++) if (vt[i].st == V_JOIN && vt[i].obj == obj) vt[i].st = V_RUN; }
// ------------------------------------------------------------- vector clocks
struct vcv { void *a; int owner; uint32_t vc[VT]; };
static struct vcv vmx[512]; static int nvmx; // mutexes and atomics, by address
static struct vcv *v_obj(void *a) {
    for (int i = 0; i < nvmx; i++) if (vmx[i].a == a) return &vmx[i];
    if (nvmx == 512) mc_fail("*", "too many synchronisation objects");
    vmx[nvmx] = (struct vcv){ .a = a, .owner = -1 }; return &vmx[nvmx++];
}
static void vc_join(uint32_t *d, const uint32_t *s) { for (int i = 0; i < VT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void vc_acq(struct vcv *o) { vc_join(vt[vcur].vc, o->vc); }
static void vc_rel(struct vcv *o) { vc_join(o->vc, vt[vcur].vc); vt[vcur].vc[vcur]++; }
#define SHB 16
// per 8 bytes: last write and last read per thread, by byte; `uni`: all bytes share slot 0
struct cell { uintptr_t g; uint32_t gen; uint8_t uni, rth; uint8_t wt[8], wat[8]; uint32_t wc[8]; uint32_t rc[VT][8]; uint8_t rat[VT]; };
static struct cell *shadow; static uint32_t sgen = 1; static bool v_races; static uint32_t *shused; static int nshused;
static void sh_clear(struct cell *c, uintptr_t g) { c->g = g; c->gen = sgen; c->uni = 1; c->rth = 0; c->wt[0] = 0xff; }
static struct cell *sh_get(uintptr_t g) {
    uint32_t h = (uint32_t)((g*0x9E3779B97F4A7C15ull)>>(64-SHB));
    for (uint32_t i = 0; i < (1u<<SHB); i++, h = (h+1)&((1u<<SHB)-1)) {
        struct cell *c = &shadow[h];
        if (c->gen != sgen) { if (nshused < (1<<SHB)) shused[nshused++] = h; sh_clear(c, g); return c; }
        if (c->g == g) return c;
    }
    return NULL;
}
__attribute__((noinline)) static void v_race(const char *k, uintptr_t a, int o) {
    mc_fail("C20,C21,C28,C17,C19", "data race: thread %d and thread %d access the same memory without synchronisation (%s, %s)", vcur, o, k, mc_addr_mapped((void*)a, (void*)(a+1)) ? "on a coroutine stack" : "in static data or on the heap");
}
static void sh_byte(struct cell *c, int b, uintptr_t a, bool w, bool at) {
    uint32_t *vc = vt[vcur].vc;
    if (c->wt[b] != 0xff && c->wt[b] != vcur && c->wc[b] > vc[c->wt[b]] && !(at && c->wat[b])) v_race(w ? "write after write" : "read after write", a, c->wt[b]);
    if (w) {
        if (c->rth & ~(1u<<vcur)) for (int i = 0; i < VT; i++) if (c->rth>>i & 1 && i != vcur && c->rc[i][b] > vc[i] && !(at && c->rat[i] & (1<<b))) v_race("write after read", a, i);
        c->wt[b] = (uint8_t)vcur; c->wc[b] = vc[vcur]; c->wat[b] = at;
    } else {
        if (!(c->rth>>vcur & 1)) { c->rth |= (uint8_t)(1u<<vcur); memset(c->rc[vcur], 0, sizeof c->rc[0]); c->rat[vcur] = 0; }
        c->rc[vcur][b] = vc[vcur]; if (at) c->rat[vcur] |= (uint8_t)(1<<b); else c->rat[vcur] &= (uint8_t)~(1<<b);
    }
}
static void sh_split(struct cell *c) {
    c->uni = 0;
    for (int b = 1; b < 8; b++) { c->wt[b] = c->wt[0]; c->wat[b] = c->wat[0]; c->wc[b] = c->wc[0]; for (int i = 0; i < VT; i++) if (c->rth>>i & 1) { c->rc[i][b] = c->rc[i][0]; if (c->rat[i] & 1) c->rat[i] |= (uint8_t)(1<<b); else c->rat[i] &= (uint8_t)~(1<<b); } }
}
static void v_access(const void *p, size_t n, bool w, bool at) {
    if (!v_races || vlive < 2 || !shadow) return;
    uintptr_t a = (uintptr_t)p;
    if (((char*)p >= v_tls && (char*)p < v_tls+v_tlsn) || p == (void*)&errno) return; // thread-local
    if (vt[vcur].stack && a >= (uintptr_t)vt[vcur].stack && a < (uintptr_t)vt[vcur].stack+VSTK) return; // one's own stack
    while (n) {
        struct cell *c = sh_get(a>>3);
        if (!c) { mc_fail("*", "the shadow memory is full"); return; }
        if ((a&7) == 0 && n >= 8) {
            if (c->uni) sh_byte(c, 0, a, w, at); else { for (int b = 0; b < 8; b++) sh_byte(c, b, a+(uintptr_t)b, w, at); if (w) { c->uni = 1; c->rth = 0; } }
            a += 8; n -= 8; continue;
        }
        if (c->uni) sh_split(c);
        do { sh_byte(c, (int)(a&7), a, w, at); a++; n--; } while (n && a&7);
    }
}
static void vth_mapped(void *p, size_t n) { // fresh memory has no history
    if (!v_races || !shadow) return;
    for (int i = 0; i < nshused; i++) { struct cell *c = &shadow[shused[i]]; if (c->gen == sgen && c->g >= (uintptr_t)p>>3 && c->g < ((uintptr_t)p+n)>>3) sh_clear(c, c->g); }
}
// ------------------------------------------------------------------- pthreads
static void v_entry(void) {
    struct vt *t = &vt[vcur];
    t->ret = t->fn(t->arg);
    t = &vt[vcur];
    mc_log("    (thread %d ends)", vcur);
    mc_prog++;
    t->st = t->detached ? V_FREE : V_DONE; vlive--;
    for (int i = 0; i < VT; i++) if (vt[i].st == V_JOIN && vt[i].obj == t) vt[i].st = V_RUN;
    v_schedule();
    abort();
}
int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void*), void *arg) {
    (void)a;
    if (mc_hooks.fault && mc_hooks.fault(F_PTHREAD_CREATE)) { mc_faults++; return EAGAIN; }
    int k = -1; for (int i = 1; i < VT; i++) if (vt[i].st == V_FREE) { k = i; break; }
    if (k < 0) { mc_fail("*", "too many threads"); mc_abandon(); }
    struct vt *t = &vt[k]; char *stk = t->stack, *tls = t->tls; uint32_t own = t->vc[k];
    memset(t, 0, sizeof *t); t->stack = stk ? stk : malloc(VSTK); t->tls = tls ? tls : malloc(v_tlsn);
    memcpy(t->tls, v_tls0, v_tlsn);
    t->fn = fn; t->arg = arg; t->st = V_RUN;
    memcpy(t->vc, vt[vcur].vc, sizeof t->vc); t->vc[k] = own+1; vt[vcur].vc[vcur]++;
    uintptr_t *sp = (uintptr_t*)(t->stack+VSTK-64); sp = (uintptr_t*)((uintptr_t)sp & ~(uintptr_t)15);
    *--sp = 0; *--sp = (uintptr_t)v_entry; for (int i = 0; i < 6; i++) *--sp = 0;
    t->sp = sp;
    *th = (pthread_t)(k+1000); vlive++; vcreated++; if (vlive > vpeak) vpeak = vlive;
    mc_log("    (thread %d starts thread %d)", vcur, k);
    v_point("create");
    return 0;
}
static struct vt *v_th(pthread_t th) { int k = (int)th-1000; if (k < 1 || k >= VT || vt[k].st == V_FREE) { mc_fail("C20,C28,C29", "a thread that does not exist is joined or detached"); mc_abandon(); } return &vt[k]; }
int __wrap_pthread_detach(pthread_t th) { struct vt *t = v_th(th); if (t->detached) mc_fail("C20,C28,C29", "a thread is detached twice"); t->detached = true; if (t->st == V_DONE) t->st = V_FREE; v_point("detach"); return 0; }
int __wrap_pthread_join(pthread_t th, void **r) {
    struct vt *t = v_th(th);
    if (t->detached) mc_fail("C20,C28,C29", "a detached thread is joined");
    if (t->st != V_DONE) { vt[vcur].st = V_JOIN; vt[vcur].obj = t; v_schedule(); }
    vc_join(vt[vcur].vc, t->vc); if (r) *r = t->ret;
    t->st = V_FREE; return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; struct vcv *o = v_obj(m); o->owner = -1; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { struct vcv *o = v_obj(m); if (o->owner >= 0) mc_fail("C20,C29", "a locked mutex is destroyed"); return 0; }
static void v_lock(struct vcv *o) {
    while (o->owner >= 0) {
        if (o->owner == vcur) { mc_fail("C20,C21", "a thread locks a mutex it holds already"); mc_abandon(); }
        vt[vcur].st = V_MUTEX; vt[vcur].obj = o->a; v_schedule();
    }
    o->owner = vcur; vc_acq(o);
}
static void v_unlock(struct vcv *o) {
    if (o->owner != vcur) { mc_fail("C20,C21", "a thread unlocks a mutex it does not hold"); mc_abandon(); }
    vc_rel(o); o->owner = -1;
    for (int i = 0; i < VT; i++) if (vt[i].st == V_MUTEX && vt[i].obj == o->a) vt[i].st = V_RUN;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { v_point("lock"); v_lock(v_obj(m)); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { v_point("trylock"); struct vcv *o = v_obj(m); if (o->owner >= 0) return EBUSY; o->owner = vcur; vc_acq(o); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { v_unlock(v_obj(m)); v_point("unlock"); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)c; (void)a; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { for (int i = 0; i < VT; i++) if (vt[i].st == V_COND && vt[i].obj == c) mc_fail("C20,C29", "a condition variable in use is destroyed"); return 0; }
static int v_cwait(pthread_cond_t *c, pthread_mutex_t *m, int64_t until) {
    struct vcv *o = v_obj(m); struct vt *t = &vt[vcur];
    v_unlock(o);
    t->timedout = false;
    if (vspur && mc_dev(2)) { mc_log("    (spurious wake-up of thread %d)", vcur); v_point("spurious"); }
    else { t->st = V_COND; t->obj = c; t->until = until; v_schedule(); }
    v_lock(v_obj(m));
    return vt[vcur].timedout ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return v_cwait(c, m, INT64_MAX); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return v_cwait(c, m, ts->tv_sec*INT64_C(1000000000)+ts->tv_nsec); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    int R[VT], n = 0; for (int i = 0; i < VT; i++) if (vt[i].st == V_COND && vt[i].obj == c) R[n++] = i;
    if (n) {
        int k = R[n > 1 ? mc_choose(n) : 0]; bool late = false;
        if (vlate && vt[k].until != INT64_MAX && mc_dev(2)) { late = true; if (vt_now < vt[k].until) vt_now = vt[k].until; mc_log("    (thread %d gave up waiting just before the signal)", k); }
        vt[k].timedout = late; vt[k].st = V_RUN;
    }
    v_point("signal"); return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { for (int i = 0; i < VT; i++) if (vt[i].st == V_COND && vt[i].obj == c) { vt[i].timedout = false; vt[i].st = V_RUN; } v_point("broadcast"); return 0; }
static void v_at(void *a, size_t n, bool ld, bool st, int mo) {
    v_point("atomic");
    v_access(a, n, st, true);
    if (mo != __ATOMIC_RELAXED) { struct vcv *o = v_obj(a); if (ld) vc_acq(o); if (st) vc_rel(o); }
}
#include "tsan.h"
// ------------------------------------------------------------------------- setup
static void vth_reset(void) {
    vcur = 0; vlive = 1; vpeak = 1; vcreated = 0; vforced = 0; vforcedprog = 0; vtick = 0; nvmx = 0; sgen++; nshused = 0;
    for (int i = 0; i < VT; i++) { char *s = vt[i].stack, *t = vt[i].tls; memset(&vt[i], 0, sizeof vt[i]); vt[i].stack = s; vt[i].tls = t; vt[i].vc[i] = 1; }
    vt[0].st = V_RUN;
    if (!vt[0].tls) vt[0].tls = malloc(v_tlsn);
}
static int vth_left(void) { int n = 0; for (int i = 1; i < VT; i++) if (vt[i].st != V_FREE) n++; return n; }
static void vth_relax(void) { v_yield(); }
static void vth_setup(void) {
    mc_tls_range(&v_tls, &v_tlsn, &v_tls0);
    vspur = mc_cfg("spur", 0); vlate = mc_cfg("late", 0); vstut = mc_cfg("stut", 8); vfree = mc_cfg("free", 2); v_races = mc_cfg("race", 1);
    shadow = __real_mmap(NULL, sizeof(struct cell)*(1u<<SHB), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    shused = malloc(sizeof(uint32_t)<<SHB);
    mc_hooks.sleep = vth_sleep; mc_hooks.relax = vth_relax; mc_hooks.mapped = vth_mapped;
    mc_spinmax = 400;
}
